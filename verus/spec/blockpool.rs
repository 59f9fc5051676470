// ---- C18: what reading does to the pool
pub open spec fn within(a: Pool, m: Pool) -> bool { lhm_ok(a) && forall|j: u32| lhm_get(a, j) is Some ==> #[trigger] lhm_get(a, j) == lhm_get(m, j) }
pub proof fn within_del(m: Pool, k: u32) requires lhm_ok(m) ensures within(lhm_del(m, k), m), lhm_get(lhm_del(m, k), k) is None
{ lhm_get_del(m, k, k); assert forall|j: u32| lhm_get(lhm_del(m, k), j) is Some implies #[trigger] lhm_get(lhm_del(m, k), j) == lhm_get(m, j) by { lhm_get_del(m, k, j); } }
pub proof fn within_trans(a: Pool, b: Pool, m: Pool) requires within(a, b), within(b, m) ensures within(a, m)
{ assert forall|j: u32| lhm_get(a, j) is Some implies #[trigger] lhm_get(a, j) == lhm_get(m, j) by { assert(lhm_get(b, j) is Some); } }
pub proof fn within_none(a: Pool, m: Pool, j: u32) requires within(a, m), lhm_get(m, j) is None ensures lhm_get(a, j) is None { if lhm_get(a, j) is Some { } }
/// reading uses up the block it reads, and leaves the others it does not use as they are
pub proof fn block_left(id: u32, m: Pool) requires lhm_ok(m) ensures read_block(id, m) matches Some(r) ==> within(r.1, m) && lhm_get(r.1, id) is None && lhm_get(m, id) is Some decreases m.len(), 0int, 0int
{
    if let Some(b) = lhm_get(m, id) {
        let m0 = lhm_del(m, id); del_less(m, id); within_del(m, id); nest_uses(b.sub_stack1, m0); nest_left(b.sub_stack1, m0);
        if let Some(p1) = read_nest(b.sub_stack1, m0) { within_trans(p1.1, m0, m); within_none(p1.1, m0, id); nest_uses(b.sub_stack2, p1.1); nest_left(b.sub_stack2, p1.1);
            if let Some(p2) = read_nest(b.sub_stack2, p1.1) { within_trans(p2.1, p1.1, m); within_none(p2.1, p1.1, id); if let Some(c) = full_content(b.spec@, b.parameters@) { args_left(c.items@, p2.1, c.items@.len());
                if let Some(p3) = read_args(c.items@, p2.1, c.items@.len()) { within_trans(p3.1, p2.1, m); within_none(p3.1, p2.1, id); } } }
        }
    }
}
pub proof fn nest_left(p: i32, m: Pool) requires lhm_ok(m) ensures read_nest(p, m) matches Some(r) ==> within(r.1, m) decreases m.len(), 2int, 0int { if p >= 0 { seq_left(p as u32, m); } }
pub proof fn seq_left(id: u32, m: Pool) requires lhm_ok(m) ensures read_seq(id, m) matches Some(r) ==> within(r.1, m) && lhm_get(r.1, id) is None decreases m.len(), 1int, 0int
{ if let Some(b) = lhm_get(m, id) { block_left(id, m); block_uses(id, m); if let Some(r) = read_block(id, m) { if b.next_block >= 0 { seq_left(b.next_block as u32, r.1); if let Some(t) = read_seq(b.next_block as u32, r.1) { within_trans(t.1, r.1, m); within_none(t.1, r.1, id); } } } } }
pub proof fn args_left(items: Seq<SpecItem>, m: Pool, n: nat) requires lhm_ok(m) ensures read_args(items, m, n) matches Some(r) ==> within(r.1, m) decreases m.len(), 1int, n
{
    if n > 0 { args_left(items, m, (n - 1) as nat); args_use(items, m, (n - 1) as nat);
        if let Some(p) = read_args(items, m, (n - 1) as nat) { if let SpecItem::Parameter(a) = items[n - 1] { if let Some(id) = holds(a) { block_left(id, p.1); if let Some(r) = read_block(id, p.1) { within_trans(r.1, p.1, m); } } } } }
}
/// the order of taking blocks out does not matter
pub proof fn del_del(m: Pool, a: u32, b: u32) requires lhm_ok(m) ensures lhm_del(lhm_del(m, a), b) == lhm_del(lhm_del(m, b), a) decreases m.len()
{
    if m.len() > 0 && a != b {
        let t = m.drop_last(); let x = m.last();
        assert(lhm_ok(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(m[i] == t[i] && m[j] == t[j]); } }
        del_del(t, a, b);
        assert(lhm_del(t, a).push(x).drop_last() =~= lhm_del(t, a)); assert(lhm_del(t, b).push(x).drop_last() =~= lhm_del(t, b));
    }
}
/// a block that is not used does not matter: without it the same is read
pub proof fn block_frame(id: u32, m: Pool, k: u32) requires lhm_ok(m), read_block(id, m) matches Some(r) && lhm_get(r.1, k) is Some
    ensures read_block(id, lhm_del(m, k)) == Some(((read_block(id, m)->0).0, lhm_del((read_block(id, m)->0).1, k))) decreases m.len(), 0int, 0int
{
    let b = lhm_get(m, id)->0; let m0 = lhm_del(m, id); let d = lhm_del(m, k); let d0 = lhm_del(d, id);
    block_left(id, m); lhm_get_del(m, k, id); lhm_get_del(m, id, k); del_del(m, id, k); del_less(m, id);
    assert(lhm_get(d, id) == Some(b)); del_less(d, id);
    nest_uses(b.sub_stack1, m0); nest_left(b.sub_stack1, m0); let p1 = read_nest(b.sub_stack1, m0)->0;
    nest_uses(b.sub_stack2, p1.1); nest_left(b.sub_stack2, p1.1); let p2 = read_nest(b.sub_stack2, p1.1)->0;
    let c = full_content(b.spec@, b.parameters@)->0; args_left(c.items@, p2.1, c.items@.len()); let p3 = read_args(c.items@, p2.1, c.items@.len())->0;
    assert(lhm_get(p3.1, k) is Some); assert(lhm_get(p2.1, k) is Some) by { assert(lhm_get(p3.1, k) == lhm_get(p2.1, k)); }
    assert(lhm_get(p1.1, k) is Some) by { assert(lhm_get(p2.1, k) == lhm_get(p1.1, k)); }
    nest_frame(b.sub_stack1, m0, k); nest_frame(b.sub_stack2, p1.1, k); args_frame(c.items@, p2.1, c.items@.len(), k);
    lhm_get_del(d, id, id); nest_uses(b.sub_stack1, d0); nest_uses(b.sub_stack2, lhm_del(p1.1, k));
}
pub proof fn nest_frame(p: i32, m: Pool, k: u32) requires lhm_ok(m), read_nest(p, m) matches Some(r) && lhm_get(r.1, k) is Some
    ensures read_nest(p, lhm_del(m, k)) == Some(((read_nest(p, m)->0).0, lhm_del((read_nest(p, m)->0).1, k))) decreases m.len(), 2int, 0int
{ if p >= 0 { seq_frame(p as u32, m, k); } }
pub proof fn seq_frame(id: u32, m: Pool, k: u32) requires lhm_ok(m), read_seq(id, m) matches Some(r) && lhm_get(r.1, k) is Some
    ensures read_seq(id, lhm_del(m, k)) == Some(((read_seq(id, m)->0).0, lhm_del((read_seq(id, m)->0).1, k))) decreases m.len(), 1int, 0int
{
    let b = lhm_get(m, id)->0; block_left(id, m); block_uses(id, m); let r = read_block(id, m)->0;
    if b.next_block >= 0 { seq_left(b.next_block as u32, r.1); let t = read_seq(b.next_block as u32, r.1)->0; assert(lhm_get(t.1, k) == lhm_get(r.1, k)); }
    assert(lhm_get(r.1, k) is Some); block_frame(id, m, k); lhm_get_del(m, k, id); assert(lhm_get(r.1, k) == lhm_get(m, k));
    block_uses(id, lhm_del(m, k));
    if b.next_block >= 0 { seq_frame(b.next_block as u32, r.1, k); }
}
pub proof fn args_frame(items: Seq<SpecItem>, m: Pool, n: nat, k: u32) requires lhm_ok(m), read_args(items, m, n) matches Some(r) && lhm_get(r.1, k) is Some
    ensures read_args(items, lhm_del(m, k), n) == Some(((read_args(items, m, n)->0).0, lhm_del((read_args(items, m, n)->0).1, k))) decreases m.len(), 1int, n
{
    if n > 0 {
        let n1 = (n - 1) as nat; args_left(items, m, n1); args_use(items, m, n1); let p = read_args(items, m, n1)->0;
        if let SpecItem::Parameter(a) = items[n - 1] { if let Some(id) = holds(a) { block_left(id, p.1); let r = read_block(id, p.1)->0; assert(lhm_get(r.1, k) == lhm_get(p.1, k)); } }
        args_frame(items, m, n1, k); args_use(items, lhm_del(m, k), n1);
        if let SpecItem::Parameter(a) = items[n - 1] { if let Some(id) = holds(a) { block_frame(id, p.1, k); } }
    }
}
// ---- C18 in words
/// an empty container is an empty sequence
pub proof fn c18_empty() ensures blocks_of(Seq::empty()) matches Some(b) && b.0@ == Seq::<ABlock>::empty() { broadcast use vp_views; }
/// references that name no block, or a block used already, are errors
pub proof fn c18_dangling(id: u32, m: Pool) requires lhm_get(m, id) is None ensures read_block(id, m) is None, read_seq(id, m) is None, id <= i32::MAX ==> read_nest(id as i32, m) is None { }
pub proof fn c18_next(id: u32, m: Pool) requires lhm_ok(m), lhm_get(m, id) is Some, read_block(id, m) is Some, lhm_get(m, id)->0.next_block >= 0, lhm_get((read_block(id, m)->0).1, lhm_get(m, id)->0.next_block as u32) is None ensures read_seq(id, m) is None
{ assert(read_seq(lhm_get(m, id)->0.next_block as u32, (read_block(id, m)->0).1) is None); }
pub proof fn c18_twice(id: u32, m: Pool) requires lhm_ok(m)
    ensures
        read_block(id, m) matches Some(r) ==> read_block(id, r.1) is None && read_seq(id, r.1) is None && within(r.1, m),
        read_seq(id, m) matches Some(r) ==> read_block(id, r.1) is None && read_seq(id, r.1) is None && within(r.1, m),
        // a block that refers to itself
        lhm_get(m, id) matches Some(b) ==> (b.next_block == id ==> read_seq(id, m) is None) && (b.sub_stack1 == id || b.sub_stack2 == id ==> read_block(id, m) is None),
{
    block_left(id, m); seq_left(id, m);
    if let Some(b) = lhm_get(m, id) {
        lhm_get_del(m, id, id); let m0 = lhm_del(m, id);
        if let Some(r) = read_block(id, m) { if b.next_block == id { assert(read_seq(b.next_block as u32, r.1) is None); } }
        assert(read_seq(id, m0) is None);
        if b.sub_stack1 == id { assert(read_nest(b.sub_stack1, m0) is None); }
        if b.sub_stack2 == id { if let Some(p1) = read_nest(b.sub_stack1, m0) { nest_left(b.sub_stack1, m0); within_none(p1.1, m0, id); assert(read_seq(id, p1.1) is None); assert(read_nest(b.sub_stack2, p1.1) is None); } }
        if b.sub_stack1 >= 0 { nest_left(b.sub_stack1, m0); if let Some(p1) = read_nest(b.sub_stack1, m0) { within_none(p1.1, m0, id); } }
    }
}
/// the pool has every block under its id
pub proof fn pool_ok(l: Seq<PBlock>, n: nat) requires n <= l.len()
    ensures pool_of(l, n) matches Some(m) ==> lhm_ok(m) && m.len() <= n && (n > 0 ==> m.len() > 0)
        && (forall|j: u32| lhm_get(m, j) is Some <==> (exists|i: int| 0 <= i < n && #[trigger] id_text(l[i]) == Some(j)))
        && (forall|i: int| 0 <= i < n && (forall|k: int| i < k < n ==> id_text(#[trigger] l[k]) != id_text(l[i])) ==> id_text(#[trigger] l[i]) is Some && lhm_get(m, id_text(l[i])->0) == Some(l[i])),
        pool_of(l, n) is None <==> (exists|i: int| 0 <= i < n && id_text(#[trigger] l[i]) is None),
    decreases n
{
    if n > 0 {
        let n1 = (n - 1) as nat; pool_ok(l, n1);
        if let Some(p) = pool_of(l, n1) { if let Some(k) = id_text(l[n - 1]) {
            let m = lhm_put(p, k, l[n - 1]);
            lhm_get_put(p, k, l[n - 1], k); lhm_del_len(p, k);
            assert forall|j: u32| lhm_get(m, j) is Some <==> (exists|i: int| 0 <= i < n && #[trigger] id_text(l[i]) == Some(j)) by {
                lhm_get_put(p, k, l[n - 1], j);
                if lhm_get(m, j) is Some && j != k { let i = choose|i: int| 0 <= i < n1 && #[trigger] id_text(l[i]) == Some(j); assert(id_text(l[i]) == Some(j)); }
                if j == k { assert(id_text(l[n - 1]) == Some(j)); }
            }
            assert forall|i: int| 0 <= i < n && (forall|q: int| i < q < n ==> id_text(#[trigger] l[q]) != id_text(l[i])) implies id_text(#[trigger] l[i]) is Some && lhm_get(m, id_text(l[i])->0) == Some(l[i]) by {
                if i < n - 1 { assert(id_text(l[n - 1]) != id_text(l[i])); assert(id_text(l[i]) is Some); lhm_get_put(p, k, l[n - 1], id_text(l[i])->0); }
            }
        } else { assert(id_text(l[n - 1]) is None); } }
    }
}
pub proof fn lhm_del_len(m: Pool, k: u32) ensures lhm_del(m, k).len() <= m.len() decreases m.len() { if m.len() > 0 { lhm_del_len(m.drop_last(), k); } }
pub open spec fn id_text(b: PBlock) -> Option<u32> { u32::of_text(b.id@) }
/// a malformed id anywhere is an error
pub proof fn c18_ids(l: Seq<PBlock>, i: int) requires 0 <= i < l.len(), id_text(l[i]) is None ensures blocks_of(l) is None { pool_ok(l, l.len()); }
/// a container of blocks with different ids is read from its first block, and a block that was not used does not matter
pub proof fn pool_distinct(l: Seq<PBlock>, n: nat) requires n <= l.len(), forall|i: int| 0 <= i < n ==> id_text(#[trigger] l[i]) is Some, forall|i: int, j: int| 0 <= i < j < n ==> id_text(#[trigger] l[i]) != id_text(#[trigger] l[j])
    ensures pool_of(l, n) is Some, pool_of(l, n)->0.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] (pool_of(l, n)->0)[i] == (id_text(l[i])->0, l[i])
    decreases n
{
    if n > 0 {
        let n1 = (n - 1) as nat; pool_distinct(l, n1); pool_ok(l, n1); let p = pool_of(l, n1)->0; let k = id_text(l[n - 1])->0;
        if lhm_get(p, k) is Some { let i = choose|i: int| 0 <= i < n1 && #[trigger] id_text(l[i]) == Some(k); assert(id_text(l[i]) != id_text(l[n - 1])); }
        lhm_del_none(p, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] (pool_of(l, n)->0)[i] == (id_text(l[i])->0, l[i]) by { if i < n1 { assert(p[i] == (id_text(l[i])->0, l[i])); } }
    }
}
pub proof fn c18_first(l: Seq<PBlock>) requires l.len() > 0, forall|i: int| 0 <= i < l.len() ==> id_text(#[trigger] l[i]) is Some, forall|i: int, j: int| 0 <= i < j < l.len() ==> id_text(#[trigger] l[i]) != id_text(#[trigger] l[j])
    ensures blocks_of(l) == (match read_seq(id_text(l[0])->0, pool_of(l, l.len())->0) { None => None, Some(r) => Some(Blocks(vec_of(r.0))) })
{ pool_distinct(l, l.len()); }
pub proof fn c18_unused(l: Seq<PBlock>, k: u32)
    requires pool_of(l, l.len()) matches Some(m) && m.len() > 0 && (read_seq(m[0].0, m) matches Some(r) && lhm_get(r.1, k) is Some)
    ensures ({ let m = pool_of(l, l.len())->0; read_seq(m[0].0, lhm_del(m, k)) == Some(((read_seq(m[0].0, m)->0).0, lhm_del((read_seq(m[0].0, m)->0).1, k))) })
{ pool_ok(l, l.len()); let m = pool_of(l, l.len())->0; seq_frame(m[0].0, m, k); }
