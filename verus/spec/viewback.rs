// ---- C12: the tree of the flat list of a tree is that tree
pub open spec fn with_id(v: VNode, q: Seq<char>) -> bool { found(v, q) is Some }
pub open spec fn with_id_in(vs: Vec<VNode>, q: Seq<char>) -> bool { found_in(vs, 0, q) is Some }
/// no id twice
pub open spec fn uniq(v: VNode) -> bool decreases v, 0nat { !with_id_in(v.children, v.id@) && uniq_in(v.children, v.children@.len()) }
pub open spec fn uniq_in(vs: Vec<VNode>, n: nat) -> bool decreases vs, n when n <= vs@.len() {
    n == 0 || (uniq_in(vs, (n - 1) as nat) && uniq(vs@[n - 1]) && forall|i: int, q: Seq<char>| 0 <= i < n - 1 && #[trigger] with_id(vs@[i], q) ==> !with_id(vs@[n - 1], q))
}
pub open spec fn size(v: VNode) -> nat decreases v, 0nat { 1 + size_in(v.children, v.children@.len()) }
pub open spec fn size_in(vs: Vec<VNode>, n: nat) -> nat decreases vs, n when n <= vs@.len() { if n == 0 { 0 } else { size_in(vs, (n - 1) as nat) + size(vs@[n - 1]) } }
/// the tree as one node, so that the top is a place like any other
pub uninterp spec fn some_node() -> VNode;
pub open spec fn whole_tree(t: Seq<VNode>) -> VNode { VNode { id: string_of("root"@), children: vec_of(t), ..some_node() } }
// -- finding in a list
pub proof fn in_at(vs: Vec<VNode>, i: nat, j: nat, q: Seq<char>) requires i <= j < vs@.len(), with_id(vs@[j as int], q) ensures found_in(vs, i, q) is Some decreases vs@.len() - i { if i < j { in_at(vs, i + 1, j, q); } }
pub proof fn in_none(vs: Vec<VNode>, i: nat, q: Seq<char>) requires i <= vs@.len(), forall|j: int| i <= j < vs@.len() ==> !with_id(#[trigger] vs@[j], q) ensures found_in(vs, i, q) is None decreases vs@.len() - i { if i < vs@.len() { assert(!with_id(vs@[i as int], q)); in_none(vs, i + 1, q); } }
pub proof fn in_nowhere(vs: Vec<VNode>, q: Seq<char>) requires !with_id_in(vs, q) ensures forall|j: int| 0 <= j < vs@.len() ==> !with_id(#[trigger] vs@[j], q) { assert forall|j: int| 0 <= j < vs@.len() implies !with_id(#[trigger] vs@[j], q) by { if with_id(vs@[j], q) { in_at(vs, 0, j as nat, q); } } }
pub proof fn in_first(vs: Vec<VNode>, i: nat, j: nat, q: Seq<char>)
    requires i <= j < vs@.len(), with_id(vs@[j as int], q), forall|k: int| i <= k < j ==> !with_id(#[trigger] vs@[k], q)
    ensures found_in(vs, i, q) == found(vs@[j as int], q), forall|m: VNode| #[trigger] replaced_in(vs, i, q, m) == vs@.update(j as int, replaced(vs@[j as int], q, m))
    decreases j - i
{ if i < j { assert(!with_id(vs@[i as int], q)); in_first(vs, i + 1, j, q); assert forall|m: VNode| #[trigger] replaced_in(vs, i, q, m) == vs@.update(j as int, replaced(vs@[j as int], q, m)) by { assert(replaced_in(vs, i, q, m) == replaced_in(vs, i + 1, q, m)); } } }
pub proof fn first_in(vs: Vec<VNode>, i: nat, q: Seq<char>) -> (j: nat)
    requires i <= vs@.len(), found_in(vs, i, q) is Some
    ensures i <= j < vs@.len(), with_id(vs@[j as int], q), forall|k: int| i <= k < j ==> !with_id(#[trigger] vs@[k], q)
    decreases vs@.len() - i
{ if with_id(vs@[i as int], q) { i } else { let j = first_in(vs, i + 1, q); assert forall|k: int| i <= k < j implies !with_id(#[trigger] vs@[k], q) by { if k > i { } } j } }
// -- replacing
pub proof fn put_at(v: VNode, p: Seq<char>, m: VNode, j: nat)
    requires v.id@ != p, j < v.children@.len(), with_id(v.children@[j as int], p), forall|k: int| 0 <= k < j ==> !with_id(#[trigger] v.children@[k], p)
    ensures replaced(v, p, m).children@ == v.children@.update(j as int, replaced(v.children@[j as int], p, m)), replaced(v, p, m) == (VNode { children: vec_of(v.children@.update(j as int, replaced(v.children@[j as int], p, m))), ..v }), found(v, p) == found(v.children@[j as int], p)
{ broadcast use vp_views; in_first(v.children, 0, j, p); assert(replaced_in(v.children, 0, p, m) == v.children@.update(j as int, replaced(v.children@[j as int], p, m))); }
pub proof fn put_same(v: VNode, p: Seq<char>, x: VNode, y: VNode)
    requires with_id(v, p), x.id@ == p
    ensures found(replaced(v, p, x), p) == Some(x), replaced(replaced(v, p, x), p, y) == replaced(v, p, y)
    decreases v, 0nat
{
    broadcast use vp_views;
    if v.id@ != p {
        let vs = v.children; let j = first_in(vs, 0, p); in_first(vs, 0, j, p); put_same(vs@[j as int], p, x, y);
        put_at(v, p, x, j); put_at(v, p, y, j); let w = replaced(v, p, x).children; assert(w@ == vs@.update(j as int, replaced(vs@[j as int], p, x)));
        put_at(replaced(v, p, x), p, y, j);
        assert(w@.update(j as int, replaced(w@[j as int], p, y)) =~= vs@.update(j as int, replaced(vs@[j as int], p, y)));
    }
}
pub proof fn put_in(v: VNode, p: Seq<char>, x: VNode, q: Seq<char>)
    requires with_id(v, p), !with_id(v, q), x.id@ == p
    ensures found(replaced(v, p, x), q) == found(x, q), with_id(x, q) ==> forall|z: VNode| #[trigger] replaced(replaced(v, p, x), q, z) == replaced(v, p, replaced(x, q, z)), replaced(v, p, x).id@ == v.id@
    decreases v, 0nat
{
    broadcast use vp_views;
    if v.id@ != p {
        let vs = v.children; let j = first_in(vs, 0, p); in_nowhere(vs, q); in_first(vs, 0, j, p); put_in(vs@[j as int], p, x, q);
        put_at(v, p, x, j); let r = replaced(v, p, x); let w = r.children; assert(w@ == vs@.update(j as int, replaced(vs@[j as int], p, x)));
        if with_id(x, q) {
            in_first(w, 0, j, q);
            assert forall|z: VNode| #[trigger] replaced(r, q, z) == replaced(v, p, replaced(x, q, z)) by {
                put_at(r, q, z, j); put_at(v, p, replaced(x, q, z), j);
                assert(w@.update(j as int, replaced(w@[j as int], q, z)) =~= vs@.update(j as int, replaced(vs@[j as int], p, replaced(x, q, z))));
            }
        } else { in_none(w, 0, q); }
    }
}
// -- placing
pub open spec fn with_child(x: VNode, y: VNode) -> VNode { VNode { children: vec_of(x.children@.push(y)), ..x } }
pub open spec fn put(v: VNode, a: AndroidView) -> Option<VNode> { match a.parent { None => None, Some(p) => match found(v, p@) { None => None, Some(x) => Some(replaced(v, p@, with_child(x, node_of(a)))) } } }
pub open spec fn put_all(v: VNode, l: Seq<AndroidView>, n: nat) -> Option<VNode> decreases n { if n == 0 { Some(v) } else { match put_all(v, l, (n - 1) as nat) { None => None, Some(w) => put(w, l[n - 1]) } } }
pub proof fn put_cat(v: VNode, a: Seq<AndroidView>, b: Seq<AndroidView>, n: nat)
    requires n <= b.len()
    ensures put_all(v, a + b, a.len() + n) == (match put_all(v, a, a.len()) { None => None, Some(w) => put_all(w, b, n) })
    decreases n
{ if n > 0 { put_cat(v, a, b, (n - 1) as nat); assert((a + b)[a.len() + n - 1] == b[n - 1]); } else { put_ext(v, a + b, a, a.len()); } }
pub proof fn put_ext(v: VNode, a: Seq<AndroidView>, b: Seq<AndroidView>, n: nat) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures put_all(v, a, n) == put_all(v, b, n) decreases n { if n > 0 { put_ext(v, a, b, (n - 1) as nat); } }
pub proof fn whole_put(t: Seq<VNode>, a: AndroidView) ensures placed(t, a) is Some <==> put(whole_tree(t), a) is Some, placed(t, a) matches Some(u) ==> put(whole_tree(t), a) == Some(whole_tree(u))
{ broadcast use vp_views; }
pub proof fn whole_all(l: Seq<AndroidView>, n: nat) ensures tree_of(l, n) is Some <==> put_all(whole_tree(Seq::empty()), l, n) is Some, tree_of(l, n) matches Some(t) ==> put_all(whole_tree(Seq::empty()), l, n) == Some(whole_tree(t)) decreases n
{ if n > 0 { whole_all(l, (n - 1) as nat); if let Some(t) = tree_of(l, (n - 1) as nat) { whole_put(t, l[n - 1]); } } }
pub proof fn whole_inj(a: Seq<VNode>, b: Seq<VNode>) requires whole_tree(a) == whole_tree(b) ensures a == b { broadcast use vp_views; assert(vec_of(a)@ == vec_of(b)@); }
// -- the tree that comes back: the same nodes, with their raw views brought up to date
pub open spec fn bare(v: VNode, pid: String, pty: u8) -> VNode { node_of(written(v, pid, pty)) }
pub open spec fn fresh(v: VNode, pid: String, pty: u8) -> VNode decreases v, 0nat { VNode { children: vec_of(fresh_in(v.children, v.children@.len(), v.id, type_id(v))), ..bare(v, pid, pty) } }
pub open spec fn fresh_in(vs: Vec<VNode>, n: nat, pid: String, pty: u8) -> Seq<VNode> decreases vs, n when n <= vs@.len() { if n == 0 { Seq::empty() } else { fresh_in(vs, (n - 1) as nat, pid, pty).push(fresh(vs@[n - 1], pid, pty)) } }
pub proof fn fresh_at(vs: Vec<VNode>, n: nat, pid: String, pty: u8) requires n <= vs@.len() ensures fresh_in(vs, n, pid, pty).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fresh_in(vs, n, pid, pty)[i] == fresh(vs@[i], pid, pty) decreases n { if n > 0 { fresh_at(vs, (n - 1) as nat, pid, pty); } }
pub proof fn fresh_has(v: VNode, pid: String, pty: u8, q: Seq<char>) ensures with_id(fresh(v, pid, pty), q) == with_id(v, q), fresh(v, pid, pty).id == v.id decreases v, 0nat
{
    broadcast use vp_views;
    let vs = v.children; let f = fresh(v, pid, pty).children; let n = vs@.len(); fresh_at(vs, n, v.id, type_id(v));
    assert forall|i: int| 0 <= i < n implies with_id(#[trigger] f@[i], q) == with_id(vs@[i], q) by { fresh_has(vs@[i], v.id, type_id(v), q); }
    if with_id_in(vs, q) { let j = first_in(vs, 0, q); assert(with_id(f@[j as int], q)); in_at(f, 0, j, q); } else { in_nowhere(vs, q); in_none(f, 0, q); }
}
/// a node with some of its children filled in and the others bare
pub open spec fn part(x: VNode, vs: Vec<VNode>, k: nat, pid: String, pty: u8) -> VNode { VNode { children: vec_of(fresh_in(vs, k, pid, pty) + Seq::new((vs@.len() - k) as nat, |i: int| bare(vs@[k + i], pid, pty))), ..x } }
pub open spec fn leaf(x: VNode, vs: Seq<VNode>, k: nat, pid: String, pty: u8) -> VNode { VNode { children: vec_of(Seq::new(k, |i: int| bare(vs[i], pid, pty))), ..x } }
pub proof fn leaf_has(v: VNode, pid: String, pty: u8, q: Seq<char>) ensures with_id(bare(v, pid, pty), q) <==> v.id@ == q, with_id(bare(v, pid, pty), q) ==> found(bare(v, pid, pty), q) == Some(bare(v, pid, pty)), forall|m: VNode| v.id@ == q ==> #[trigger] replaced(bare(v, pid, pty), q, m) == m { broadcast use vp_views; }
pub open spec fn apart(v: VNode, vs: Vec<VNode>) -> bool { forall|q: Seq<char>| #[trigger] with_id_in(vs, q) ==> !with_id(v, q) }
/// placing the views of one level
pub proof fn put_heads(v: VNode, vs: Vec<VNode>, n: nat, pid: String, pty: u8, x: VNode)
    requires n <= vs@.len(), found(v, pid@) == Some(x), x.id@ == pid@, x.children@ == Seq::<VNode>::empty()
    ensures put_all(v, heads(vs@, vs@.len(), pid, pty), n) == Some(replaced(v, pid@, leaf(x, vs@, n, pid, pty)))
    decreases n
{
    broadcast use vp_views;
    if n == 0 { assert(Seq::new(0, |i: int| bare(vs@[i], pid, pty)) =~= x.children@); put_self(v, pid@); }
    else {
        let n1 = (n - 1) as nat; put_heads(v, vs, n1, pid, pty, x); let y = leaf(x, vs@, n1, pid, pty); let a = heads(vs@, vs@.len(), pid, pty)[n - 1];
        put_same(v, pid@, y, leaf(x, vs@, n, pid, pty));
        assert(with_child(y, node_of(a)) == leaf(x, vs@, n, pid, pty)) by { assert(y.children@.push(node_of(a)) =~= Seq::new(n, |i: int| bare(vs@[i], pid, pty))); }
        assert(a.parent == Some(pid));
    }
}
/// replacing a node by itself
pub proof fn put_self(v: VNode, p: Seq<char>) requires with_id(v, p) ensures found(v, p) matches Some(x) && x.id@ == p && replaced(v, p, x) == v decreases v, 0nat
{ broadcast use vp_views; if v.id@ != p { let vs = v.children; let j = first_in(vs, 0, p); in_first(vs, 0, j, p); put_self(vs@[j as int], p); let x = found(v, p)->0; assert(vs@.update(j as int, vs@[j as int]) =~= vs@); assert(replaced_in(vs, 0, p, x) == vs@); assert(vec_of(vs@) == vs); } }
/// placing the flat list of a level below a node without children: the node has that level below it
pub proof fn put_flat(v: VNode, vs: Vec<VNode>, pid: String, pty: u8, x: VNode)
    requires found(v, pid@) == Some(x), x.id@ == pid@, x.children@ == Seq::<VNode>::empty(), apart(v, vs), uniq_in(vs, vs@.len())
    ensures put_all(v, flat(vs, pid, pty), flat(vs, pid, pty).len()) == Some(replaced(v, pid@, part(x, vs, vs@.len(), pid, pty)))
    decreases vs, vs@.len() + 1
{
    broadcast use vp_views;
    let n = vs@.len(); let h = heads(vs@, n, pid, pty); let k = kids(vs, n);
    put_heads(v, vs, n, pid, pty, x); put_kids(v, vs, n, pid, pty, x);
    put_cat(v, h, k, k.len());
    assert(part(x, vs, 0, pid, pty) == leaf(x, vs@, n, pid, pty)) by { assert(part(x, vs, 0, pid, pty).children@ =~= leaf(x, vs@, n, pid, pty).children@); }
}
pub proof fn put_kids(v: VNode, vs: Vec<VNode>, n: nat, pid: String, pty: u8, x: VNode)
    requires n <= vs@.len(), found(v, pid@) == Some(x), x.id@ == pid@, apart(v, vs), uniq_in(vs, vs@.len())
    ensures put_all(replaced(v, pid@, part(x, vs, 0, pid, pty)), kids(vs, n), kids(vs, n).len()) == Some(replaced(v, pid@, part(x, vs, n, pid, pty)))
    decreases vs, n
{
    broadcast use vp_views;
    if n > 0 {
        let n1 = (n - 1) as nat; put_kids(v, vs, n1, pid, pty, x);
        let y = part(x, vs, n1, pid, pty); let w = replaced(v, pid@, y); let c = vs@[n1 as int]; let b = bare(c, pid, pty); let q = c.id@;
        uniq_upto(vs, n, vs@.len());
        fresh_at(vs, n1, pid, pty); fresh_at(vs, n, pid, pty);
        let ch = y.children; assert(ch@.len() == vs@.len()); assert(ch@[n1 as int] == b);
        assert(with_id(c, q));
        in_at(vs, 0, n1, q); assert(with_id_in(vs, q)); assert(!with_id(v, q));
        leaf_has(c, pid, pty, q);
        assert forall|i: int| 0 <= i < n1 implies !with_id(#[trigger] ch@[i], q) by { assert(ch@[i] == fresh(vs@[i], pid, pty)); fresh_has(vs@[i], pid, pty, q); }
        in_first(ch, 0, n1, q);
        assert(pid@ != q) by { if pid@ == q { } }
        assert(found(y, q) == Some(b));
        put_in(v, pid@, y, q);
        // below the child
        let cs = c.children; let ty = type_id(c);
        assert(apart(w, cs)) by {
            assert forall|z: Seq<char>| #[trigger] with_id_in(cs, z) implies !with_id(w, z) by {
                assert(with_id(c, z)); in_at(vs, 0, n1, z); assert(with_id_in(vs, z)); assert(!with_id(v, z)); put_in(v, pid@, y, z);
                assert forall|i: int| 0 <= i < ch@.len() implies !with_id(#[trigger] ch@[i], z) by {
                    if i < n1 { assert(ch@[i] == fresh(vs@[i], pid, pty)); fresh_has(vs@[i], pid, pty, z); }
                    else { assert(ch@[i] == bare(vs@[i], pid, pty)); leaf_has(vs@[i], pid, pty, z); if vs@[i].id@ == z { if i > n1 { uniq_two(vs, n1, i as nat, vs@.len(), z); } else { uniq_at(vs, vs@.len(), n1); } } }
                }
                in_none(ch, 0, z);
                assert(pid@ != z);
            }
        }
        let f = flat(cs, c.id, ty);
        uniq_at(vs, vs@.len(), n1);
        put_flat(w, cs, c.id, ty, b);
        let p = part(b, cs, cs@.len(), c.id, ty);
        assert(p == fresh(c, pid, pty)) by { assert(p.children@ =~= fresh_in(cs, cs@.len(), c.id, ty)); }
        assert(replaced(w, q, p) == replaced(v, pid@, replaced(y, q, p)));
        put_at(y, q, p, n1);
        assert(replaced(y, q, p).children@ =~= part(x, vs, n, pid, pty).children@);
        assert(replaced(y, q, p) == part(x, vs, n, pid, pty));
        put_cat(replaced(v, pid@, part(x, vs, 0, pid, pty)), kids(vs, n1), f, f.len());
    } else { }
}
pub proof fn uniq_upto(vs: Vec<VNode>, k: nat, n: nat) requires k <= n <= vs@.len(), uniq_in(vs, n) ensures uniq_in(vs, k) decreases n { if k < n { uniq_upto(vs, k, (n - 1) as nat); } }
pub proof fn uniq_two(vs: Vec<VNode>, i: nat, j: nat, n: nat, q: Seq<char>) requires i < j < n <= vs@.len(), uniq_in(vs, n) ensures !(with_id(vs@[i as int], q) && with_id(vs@[j as int], q)) decreases n { if j < n - 1 { uniq_two(vs, i, j, (n - 1) as nat, q); } }
/// C12: the tree built from the flat list of a tree
pub proof fn c12_again(t: Vec<VNode>)
    requires uniq(whole_tree(t@))
    ensures ({ let l = flat(t, string_of("root"@), 0); tree_of(l, l.len()) == Some(fresh_in(t, t@.len(), string_of("root"@), 0)) })
{
    broadcast use vp_views;
    let v = whole_tree(Seq::empty()); let r = string_of("root"@); let l = flat(t, r, 0); let n = t@.len();
    assert(vec_of(t@) == t);
    assert(v.children@ =~= Seq::<VNode>::empty());
    assert(apart(v, t)) by { assert forall|q: Seq<char>| #[trigger] with_id_in(t, q) implies !with_id(v, q) by { in_none(v.children, 0, q); } }
    put_flat(v, t, r, 0, v); whole_all(l, l.len());
    fresh_at(t, n, r, 0);
    let f = fresh_in(t, n, r, 0);
    assert(part(v, t, n, r, 0).children@ =~= f); assert(part(v, t, n, r, 0) == whole_tree(f));
    if let Some(u) = tree_of(l, l.len()) { whole_inj(u, f); }
}
// -- what comes back is what was there
pub open spec fn kind_ok(v: VNode) -> bool { match v.view { Ok(k) => k matches ViewType::ScrollView { orientation, .. } ==> orientation != LOrientation::Unspecified, Err(e) => kind_of_view(v.raw) is None } }
pub open spec fn kinds_ok(v: VNode) -> bool decreases v, 0nat { kind_ok(v) && kinds_in(v.children, v.children@.len()) }
pub open spec fn kinds_in(vs: Vec<VNode>, n: nat) -> bool decreases vs, n when n <= vs@.len() { n == 0 || (kinds_in(vs, (n - 1) as nat) && kinds_ok(vs@[n - 1])) }
/// the same view, with the same views below it, whatever its raw view
pub open spec fn alike(a: VNode, b: VNode) -> bool decreases a, 0nat { a == (VNode { children: a.children, raw: a.raw, ..b }) && alike_in(a.children, b.children, a.children@.len()) && a.children@.len() == b.children@.len() }
pub open spec fn alike_in(a: Vec<VNode>, b: Vec<VNode>, n: nat) -> bool decreases a, n when n <= a@.len() { n == 0 || (alike_in(a, b, (n - 1) as nat) && alike(a@[n - 1], b@[n - 1])) }
pub proof fn fresh_alike(v: VNode, pid: String, pty: u8) requires kinds_ok(v) ensures alike(fresh(v, pid, pty), v), written(fresh(v, pid, pty), pid, pty) == written(v, pid, pty), type_id(fresh(v, pid, pty)) == type_id(v) decreases v, 0nat
{
    broadcast use vp_views;
    let cs = v.children; let f = fresh_in(cs, cs@.len(), v.id, type_id(v)); fresh_at(cs, cs@.len(), v.id, type_id(v));
    let b = bare(v, pid, pty);
    bare_same(v, pid, pty);
    fresh_alike_in(cs, vec_of(f), cs@.len(), v.id, type_id(v));
}
pub proof fn fresh_alike_in(vs: Vec<VNode>, f: Vec<VNode>, n: nat, pid: String, pty: u8) requires n <= vs@.len(), kinds_in(vs, n), f@ == fresh_in(vs, vs@.len(), pid, pty) ensures alike_in(f, vs, n) decreases vs, n
{ fresh_at(vs, vs@.len(), pid, pty); if n > 0 { fresh_alike_in(vs, f, (n - 1) as nat, pid, pty); fresh_alike(vs@[n - 1], pid, pty); } }
#[verifier::rlimit(100)]
pub proof fn bare_same(v: VNode, pid: String, pty: u8) requires kind_ok(v) ensures bare(v, pid, pty) == (VNode { children: vec_of(Seq::empty()), raw: written(v, pid, pty), ..v })
{ match v.view { Ok(k) => { kind_write_read(v.raw, k); } Err(e) => { assert(e == VpErr); } } }
/// and flattening it again gives the same list
pub proof fn fresh_flat(vs: Vec<VNode>, f: Vec<VNode>, pid: String, pty: u8) requires kinds_in(vs, vs@.len()), f@ == fresh_in(vs, vs@.len(), pid, pty) ensures flat(f, pid, pty) == flat(vs, pid, pty) decreases vs, vs@.len() + 1
{
    let n = vs@.len(); fresh_at(vs, n, pid, pty);
    assert(heads(f@, n, pid, pty) =~= heads(vs@, n, pid, pty)) by { assert forall|i: int| 0 <= i < n implies written(f@[i], pid, pty) == written(vs@[i], pid, pty) by { kinds_at(vs, n, i as nat); fresh_alike(vs@[i], pid, pty); } }
    fresh_kids(vs, f, n, pid, pty);
}
pub proof fn fresh_kids(vs: Vec<VNode>, f: Vec<VNode>, n: nat, pid: String, pty: u8) requires n <= vs@.len(), kinds_in(vs, vs@.len()), f@ == fresh_in(vs, vs@.len(), pid, pty) ensures f@.len() == vs@.len(), kids(f, n) == kids(vs, n) decreases vs, n
{
    broadcast use vp_views; fresh_at(vs, vs@.len(), pid, pty);
    if n > 0 { let c = vs@[n - 1]; kinds_at(vs, vs@.len(), (n - 1) as nat); fresh_alike(c, pid, pty); fresh_kids(vs, f, (n - 1) as nat, pid, pty); fresh_flat(c.children, f@[n - 1].children, c.id, type_id(c)); }
}
pub proof fn kinds_at(vs: Vec<VNode>, n: nat, i: nat) requires i < n <= vs@.len(), kinds_in(vs, n) ensures kinds_ok(vs@[i as int]) decreases n { if i < n - 1 { kinds_at(vs, (n - 1) as nat, i); } }
// -- trees that come from a list
pub proof fn kinds_all(vs: Vec<VNode>, n: nat) requires n <= vs@.len(), forall|i: int| 0 <= i < n ==> kinds_ok(#[trigger] vs@[i]) ensures kinds_in(vs, n) decreases n { if n > 0 { kinds_all(vs, (n - 1) as nat); assert(kinds_ok(vs@[n - 1])); } }
pub proof fn uniq_all(vs: Vec<VNode>, n: nat) requires n <= vs@.len(), forall|i: int| 0 <= i < n ==> uniq(#[trigger] vs@[i]), forall|i: int, j: int, q: Seq<char>| 0 <= i < j < n && #[trigger] with_id(vs@[i], q) ==> !(#[trigger] with_id(vs@[j], q)) ensures uniq_in(vs, n) decreases n { if n > 0 { uniq_all(vs, (n - 1) as nat); assert(uniq(vs@[n - 1])); } }
pub proof fn uniq_at(vs: Vec<VNode>, n: nat, i: nat) requires i < n <= vs@.len(), uniq_in(vs, n) ensures uniq(vs@[i as int]) decreases n { if i < n - 1 { uniq_at(vs, (n - 1) as nat, i); } }
pub proof fn size_put(a: Vec<VNode>, b: Vec<VNode>, j: nat, n: nat) requires n <= a@.len(), a@.len() == b@.len(), j < a@.len(), forall|i: int| 0 <= i < a@.len() && i != j ==> a@[i] == b@[i] ensures size_in(b, n) == size_in(a, n) + (if j < n { size(b@[j as int]) - size(a@[j as int]) } else { 0 }) decreases n { if n > 0 { size_put(a, b, j, (n - 1) as nat); } }
pub proof fn size_ext(a: Vec<VNode>, b: Vec<VNode>, n: nat) requires n <= a@.len(), n <= b@.len(), forall|i: int| 0 <= i < n ==> a@[i] == b@[i] ensures size_in(a, n) == size_in(b, n) decreases n { if n > 0 { size_ext(a, b, (n - 1) as nat); } }
/// one more view: exactly one more, the others where they were, and its own kind
pub proof fn put_one(v: VNode, p: Seq<char>, y: VNode, q: Seq<char>)
    requires with_id(v, p), y.children@ == Seq::<VNode>::empty()
    ensures ({ let r = replaced(v, p, with_child(found(v, p)->0, y)); &&& r.id == v.id &&& size(r) == size(v) + 1 &&& with_id(r, q) == (with_id(v, q) || q == y.id@) &&& (kind_ok(y) && kinds_ok(v) ==> kinds_ok(r)) })
    decreases v, 0nat
{
    broadcast use vp_views;
    let vs = v.children; let x = found(v, p)->0; let r = replaced(v, p, with_child(x, y)); let w = r.children;
    leaf_is(y, q);
    if v.id@ == p {
        let n = vs@.len(); assert(w@ =~= vs@.push(y)); size_ext(w, vs, n); assert(w@[n as int] == y);
        if with_id_in(vs, q) { let j = first_in(vs, 0, q); assert(w@[j as int] == vs@[j as int]); in_at(w, 0, j, q); } else { in_nowhere(vs, q); if q == y.id@ { in_at(w, 0, n, q); } else { assert forall|i: int| 0 <= i < w@.len() implies !with_id(#[trigger] w@[i], q) by { if i < n { assert(w@[i] == vs@[i]); } } in_none(w, 0, q); } }
        if kind_ok(y) && kinds_ok(v) { assert forall|i: int| 0 <= i < w@.len() implies kinds_ok(#[trigger] w@[i]) by { if i < n { kinds_at(vs, n, i as nat); } } kinds_all(w, w@.len()); }
    } else {
        let j = first_in(vs, 0, p); in_first(vs, 0, j, p); put_one(vs@[j as int], p, y, q);
        put_at(v, p, with_child(x, y), j); assert(w@ == vs@.update(j as int, replaced(vs@[j as int], p, with_child(x, y)))); size_put(vs, w, j, vs@.len());
        if with_id_in(vs, q) { let k = first_in(vs, 0, q); assert(with_id(w@[k as int], q)); in_at(w, 0, k, q); } else { in_nowhere(vs, q); if q == y.id@ { in_at(w, 0, j, q); } else { assert forall|i: int| 0 <= i < w@.len() implies !with_id(#[trigger] w@[i], q) by { if i != j { assert(w@[i] == vs@[i]); } else { assert(!with_id(vs@[j as int], q)); } } in_none(w, 0, q); } }
        if kind_ok(y) && kinds_ok(v) { kinds_at(vs, vs@.len(), j); assert forall|i: int| 0 <= i < w@.len() implies kinds_ok(#[trigger] w@[i]) by { if i != j { kinds_at(vs, vs@.len(), i as nat); } } kinds_all(w, w@.len()); }
    }
}
pub proof fn leaf_is(y: VNode, q: Seq<char>) requires y.children@ == Seq::<VNode>::empty() ensures with_id(y, q) <==> y.id@ == q, size(y) == 1, uniq(y), kind_ok(y) ==> kinds_ok(y) { in_none(y.children, 0, q); in_none(y.children, 0, y.id@); }
/// a view with a new id keeps the ids apart
pub proof fn put_uniq(v: VNode, p: Seq<char>, y: VNode)
    requires with_id(v, p), uniq(v), y.children@ == Seq::<VNode>::empty(), !with_id(v, y.id@)
    ensures uniq(replaced(v, p, with_child(found(v, p)->0, y)))
    decreases v, 0nat
{
    broadcast use vp_views;
    let vs = v.children; let x = found(v, p)->0; let r = replaced(v, p, with_child(x, y)); let w = r.children; let n = vs@.len();
    in_nowhere(vs, y.id@); in_nowhere(vs, v.id@); leaf_is(y, y.id@);
    if v.id@ == p {
        assert(w@ =~= vs@.push(y)); assert(w@[n as int] == y);
        assert forall|i: int| 0 <= i < w@.len() implies uniq(#[trigger] w@[i]) by { if i < n { uniq_at(vs, n, i as nat); } }
        assert forall|i: int, j: int, q: Seq<char>| 0 <= i < j < w@.len() && #[trigger] with_id(w@[i], q) implies !(#[trigger] with_id(w@[j], q)) by { if j < n { uniq_two(vs, i as nat, j as nat, n, q); } else { leaf_is(y, q); assert(!with_id(vs@[i], y.id@)); } }
        uniq_all(w, w@.len());
        assert forall|i: int| 0 <= i < w@.len() implies !with_id(#[trigger] w@[i], v.id@) by { leaf_is(y, v.id@); if i < n { assert(w@[i] == vs@[i]); } }
        in_none(w, 0, v.id@);
    } else {
        let k = first_in(vs, 0, p); in_first(vs, 0, k, p); let c = vs@[k as int]; let d = w@[k as int]; uniq_at(vs, n, k); put_uniq(c, p, y);
        put_at(v, p, with_child(x, y), k); assert(w@ == vs@.update(k as int, replaced(c, p, with_child(x, y))));
        assert forall|i: int| 0 <= i < w@.len() implies uniq(#[trigger] w@[i]) by { if i != k { uniq_at(vs, n, i as nat); } }
        assert forall|i: int, j: int, q: Seq<char>| 0 <= i < j < w@.len() && #[trigger] with_id(w@[i], q) implies !(#[trigger] with_id(w@[j], q)) by { put_one(c, p, y, q); uniq_two(vs, i as nat, j as nat, n, q); assert(!with_id(vs@[i], y.id@)); assert(!with_id(vs@[j], y.id@)); }
        uniq_all(w, w@.len());
        assert forall|i: int| 0 <= i < w@.len() implies !with_id(#[trigger] w@[i], v.id@) by { put_one(c, p, y, v.id@); assert(!with_id(vs@[i], v.id@)); }
        in_none(w, 0, v.id@);
    }
}
/// C12: every view of the list is in the tree, once; nothing else is
pub proof fn c12_once(l: Seq<AndroidView>, n: nat)
    requires n <= l.len()
    ensures tree_of(l, n) matches Some(t) ==> size(whole_tree(t)) == n + 1 && kinds_in(vec_of(t), t.len()) && (forall|q: Seq<char>| #[trigger] with_id(whole_tree(t), q) <==> (q == "root"@ || exists|i: int| 0 <= i < n && (#[trigger] l[i]).id@ == q))
    decreases n
{
    broadcast use vp_views;
    if n == 0 { let t = Seq::<VNode>::empty(); assert(vec_of(t)@ =~= t); assert forall|q: Seq<char>| #[trigger] with_id(whole_tree(t), q) <==> q == "root"@ by { in_none(vec_of(t), 0, q); } }
    else {
        let n1 = (n - 1) as nat; c12_once(l, n1);
        if let Some(t) = tree_of(l, n1) {
            let a = l[n - 1]; whole_put(t, a);
            if let Some(u) = placed(t, a) {
                let p = a.parent->0; let y = node_of(a); assert(y.children@ =~= Seq::<VNode>::empty());
                node_kind(a);
                let rt = VNode { view: y.view, raw: a, ..whole_tree(t) };
                put_one(whole_tree(t), p@, y, "root"@); kinds_top(t, p@, y);
                assert forall|q: Seq<char>| #[trigger] with_id(whole_tree(u), q) <==> (q == "root"@ || exists|i: int| 0 <= i < n && (#[trigger] l[i]).id@ == q) by {
                    put_one(whole_tree(t), p@, y, q); assert(with_id(whole_tree(t), q) || q == a.id@ <==> with_id(whole_tree(u), q));
                    if with_id(whole_tree(t), q) { } else if q == a.id@ { assert(l[n - 1].id@ == q); }
                    if exists|i: int| 0 <= i < n && (#[trigger] l[i]).id@ == q { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).id@ == q; if i < n - 1 { assert(0 <= i < n1 && l[i].id@ == q); } }
                }
            }
        }
    }
}
pub proof fn node_kind(a: AndroidView) ensures kind_ok(node_of(a)) { }
pub proof fn kinds_top(t: Seq<VNode>, p: Seq<char>, y: VNode)
    requires with_id(whole_tree(t), p), y.children@ == Seq::<VNode>::empty(), kind_ok(y), kinds_in(vec_of(t), t.len())
    ensures ({ let r = replaced(whole_tree(t), p, with_child(found(whole_tree(t), p)->0, y)); kinds_in(r.children, r.children@.len()) })
{
    broadcast use vp_views;
    let v = whole_tree(t); let vs = v.children; let x = found(v, p)->0; let r = replaced(v, p, with_child(x, y)); let w = r.children; let n = vs@.len();
    leaf_is(y, p);
    if v.id@ == p { assert(w@ =~= vs@.push(y)); assert forall|i: int| 0 <= i < w@.len() implies kinds_ok(#[trigger] w@[i]) by { if i < n { kinds_at(vs, n, i as nat); } } }
    else { let j = first_in(vs, 0, p); in_first(vs, 0, j, p); put_one(vs@[j as int], p, y, p); put_at(v, p, with_child(x, y), j); assert forall|i: int| 0 <= i < w@.len() implies kinds_ok(#[trigger] w@[i]) by { kinds_at(vs, n, i as nat); if i != j { assert(w@[i] == vs@[i]); } } }
    kinds_all(w, w@.len());
}
pub proof fn c12_uniq(l: Seq<AndroidView>, n: nat)
    requires n <= l.len(), forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).id@ != "root"@, forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] l[i]).id@ != (#[trigger] l[j]).id@
    ensures tree_of(l, n) matches Some(t) ==> uniq(whole_tree(t))
    decreases n
{
    broadcast use vp_views;
    if n == 0 { let t = Seq::<VNode>::empty(); assert(vec_of(t)@ =~= t); leaf_is(whole_tree(t), "root"@); }
    else {
        let n1 = (n - 1) as nat; c12_uniq(l, n1); c12_once(l, n1);
        if let Some(t) = tree_of(l, n1) {
            let a = l[n - 1]; whole_put(t, a); let y = node_of(a); assert(y.children@ =~= Seq::<VNode>::empty());
            assert(!with_id(whole_tree(t), a.id@)) by { if with_id(whole_tree(t), a.id@) { let i = choose|i: int| 0 <= i < n1 && (#[trigger] l[i]).id@ == a.id@; assert(l[i].id@ != l[n - 1].id@); } }
            if let Some(p) = a.parent { if with_id(whole_tree(t), p@) { put_uniq(whole_tree(t), p@, y); } }
        }
    }
}
/// C12: for a list with distinct ids, the tree built from the flattened tree is the tree, and flattens to the same list
pub proof fn c12_round(l: Seq<AndroidView>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).id@ != "root"@, forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).id@ != (#[trigger] l[j]).id@
    ensures tree_of(l, l.len()) matches Some(t) ==> ({ let f = flat(vec_of(t), string_of("root"@), 0); tree_of(f, f.len()) matches Some(u) && u.len() == t.len() && alike_in(vec_of(u), vec_of(t), t.len()) && flat(vec_of(u), string_of("root"@), 0) == f })
{
    broadcast use vp_views;
    if let Some(t) = tree_of(l, l.len()) {
        c12_uniq(l, l.len()); c12_once(l, l.len()); let v = vec_of(t); let r = string_of("root"@);
        c12_again(v); fresh_at(v, t.len(), r, 0); let u = fresh_in(v, t.len(), r, 0);
        fresh_alike_in(v, vec_of(u), t.len(), r, 0); fresh_flat(v, vec_of(u), r, 0);
    }
}
/// the flat list has as many views as the tree
pub proof fn c12_count(vs: Vec<VNode>, pid: String, pty: u8) ensures flat(vs, pid, pty).len() == size_in(vs, vs@.len()) decreases vs, vs@.len() + 1 { kids_count(vs, vs@.len()); }
pub proof fn kids_count(vs: Vec<VNode>, n: nat) requires n <= vs@.len() ensures kids(vs, n).len() + n == size_in(vs, n) decreases vs, n { if n > 0 { let c = vs@[n - 1]; kids_count(vs, (n - 1) as nat); c12_count(c.children, c.id, type_id(c)); assert(size(c) == 1 + size_in(c.children, c.children@.len())); assert(size_in(vs, n) == size_in(vs, (n - 1) as nat) + size(c)); assert(kids(vs, n) == kids(vs, (n - 1) as nat) + flat(c.children, c.id, type_id(c))); } }
// -- views read from a file whose parent types are those of their parents: writing them again changes nothing at all
pub open spec fn still(v: VNode, pid: String, pty: u8) -> bool { fresh(v, pid, pty) == v }
pub open spec fn still_in(vs: Seq<VNode>, pid: String, pty: u8) -> bool { forall|i: int| 0 <= i < vs.len() ==> still(#[trigger] vs[i], pid, pty) }
pub proof fn still_kids(v: VNode, pid: String, pty: u8) ensures still(v, pid, pty) <==> (still_in(v.children@, v.id, type_id(v)) && (VNode { children: vec_of(Seq::empty()), ..v }) == bare(v, pid, pty))
{
    broadcast use vp_views;
    let vs = v.children; let n = vs@.len(); fresh_at(vs, n, v.id, type_id(v)); let f = fresh_in(vs, n, v.id, type_id(v));
    assert(vec_of(f)@ == f);
    if still(v, pid, pty) { assert(vs == vec_of(f)); assert(vs@ == f); let b = bare(v, pid, pty); assert((VNode { children: vec_of(f), ..b }) == v); assert((VNode { children: vec_of(Seq::empty()), ..v }) == b); assert forall|i: int| 0 <= i < n implies still(#[trigger] vs@[i], v.id, type_id(v)) by { assert(f[i] == fresh(vs@[i], v.id, type_id(v))); } }
    if still_in(vs@, v.id, type_id(v)) && (VNode { children: vec_of(Seq::empty()), ..v }) == bare(v, pid, pty) { assert(f =~= vs@) by { assert forall|i: int| 0 <= i < n implies f[i] == vs@[i] by { assert(still(vs@[i], v.id, type_id(v))); } } assert(vec_of(vs@) == vs); }
}
pub proof fn bare_kids(v: VNode, r: VNode, pid: String, pty: u8) requires r == (VNode { children: r.children, ..v }) ensures bare(r, pid, pty) == bare(v, pid, pty), type_id(r) == type_id(v), r.id == v.id, (VNode { children: vec_of(Seq::empty()), ..r }) == (VNode { children: vec_of(Seq::empty()), ..v }) { }
/// a node with other children is still as long as those are
pub proof fn still_as(v: VNode, r: VNode, pid: String, pty: u8)
    requires still(v, pid, pty), r == (VNode { children: r.children, ..v }), still_in(r.children@, v.id, type_id(v))
    ensures still(r, pid, pty), type_id(r) == type_id(v)
{ still_kids(v, pid, pty); still_kids(r, pid, pty); bare_kids(v, r, pid, pty); }
pub proof fn still_put(v: VNode, pid: String, pty: u8, p: Seq<char>, y: VNode)
    requires still(v, pid, pty), found(v, p) matches Some(x) && still(y, x.id, type_id(x))
    ensures still(replaced(v, p, with_child(found(v, p)->0, y)), pid, pty)
    decreases v, 0nat
{
    hide(still); hide(with_child);
    let x = found(v, p)->0; let m = with_child(x, y); let r = replaced(v, p, m); let vs = v.children;
    still_kids(v, pid, pty);
    if v.id@ == p { still_push(v, y); still_as(v, r, pid, pty); }
    else {
        let j = first_in(vs, 0, p); put_at(v, p, m, j); still_put(vs@[j as int], v.id, type_id(v), p, y);
        assert(r.children@ == vs@.update(j as int, replaced(vs@[j as int], p, m)));
        still_as(v, r, pid, pty);
    }
}
pub proof fn still_push(v: VNode, y: VNode)
    requires still_in(v.children@, v.id, type_id(v)), still(y, v.id, type_id(v))
    ensures with_child(v, y) == (VNode { children: with_child(v, y).children, ..v }), still_in(with_child(v, y).children@, v.id, type_id(v))
{ broadcast use vp_views; }
/// every view names the type of the view it is put into
pub open spec fn parents_ok(l: Seq<AndroidView>, n: nat) -> bool decreases n {
    n == 0 || (parents_ok(l, (n - 1) as nat) && match tree_of(l, (n - 1) as nat) { None => true, Some(t) => l[n - 1].parent matches Some(p) ==> l[n - 1].parent_type == (if p@ == "root"@ { 0i8 } else { match found_in(vec_of(t), 0, p@) { Some(x) => type_id(x) as i8, None => 0 } }) })
}
pub proof fn node_still(a: AndroidView, pid: String, pty: u8) requires a.parent == Some(pid), a.parent_type == pty as i8 ensures still(node_of(a), pid, pty)
{ broadcast use vp_views; let y = node_of(a); kind_read_write(a); assert(y.children@ =~= Seq::empty()); still_kids(y, pid, pty); assert(written(y, pid, pty) == a); }
/// C22, C12: an opened layout is written as it was read
pub proof fn opened_still(l: Seq<AndroidView>, n: nat)
    requires n <= l.len(), parents_ok(l, n)
    ensures tree_of(l, n) matches Some(t) ==> still_in(t, string_of("root"@), 0)
    decreases n
{
    broadcast use vp_views;
    if n > 0 {
        opened_still(l, (n - 1) as nat);
        if let Some(t) = tree_of(l, (n - 1) as nat) {
            let a = l[n - 1]; let y = node_of(a); let root = string_of("root"@);
            if let Some(u) = placed(t, a) {
                let p = a.parent->0;
                if p@ == "root"@ { assert(p == root); node_still(a, root, 0); assert(u == t.push(y)); }
                else {
                    let vt = vec_of(t); let x = found_in(vt, 0, p@)->0; let j = first_in(vt, 0, p@); in_first(vt, 0, j, p@);
                    found_id(vt@[j as int], p@); assert(x.id == p);
                    node_still(a, x.id, type_id(x)); still_put(vt@[j as int], root, 0, p@, y);
                    assert(u == vt@.update(j as int, replaced(vt@[j as int], p@, with_child(x, y))));
                }
            }
        }
    }
}
pub proof fn found_id(v: VNode, q: Seq<char>) ensures found(v, q) matches Some(x) ==> x.id@ == q decreases v, 0nat
{ if v.id@ != q && with_id(v, q) { let j = first_in(v.children, 0, q); in_first(v.children, 0, j, q); found_id(v.children@[j as int], q); } }
