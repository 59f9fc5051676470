// ---------------------------------------------------------------- what is written reads back
pub proof fn solids_add(a: Lines, b: Lines) requires solids(a), solids(b) ensures solids(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies solid(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }

// ---- one line
pub open spec fn edge_ok(s: Seq<char>) -> bool { oneline(s) && (s.len() > 0 ==> !white(s[0]) && !white(s.last())) }
pub proof fn typed_back(t: VariableType, name: String)
    requires edge_ok(name@)
    ensures solid(typed_text(t, name@)), oneline(typed_text(t, name@)), typed_read(typed_text(t, name@)) == Some((t, name))
{
    broadcast use vp_num, vp_views, ax_white;
    let d = dec(vt_no(t) as int);
    let s = typed_text(t, name@);
    let k = d.len() as int;
    assert forall|j: int| 0 <= j < k implies s[j] != ':' by { assert(s[j] == d[j]); }
    assert(s[k] == ':');
    find_ch(s, ':', 0, k);
    assert(s.take(k) =~= d);
    assert(s.skip(k + 1) =~= name@);
    assert forall|j: int| 0 <= j < s.len() implies s[j] != '\n' by {
        if j < k { assert(s[j] == d[j]); } else if j > k { assert(s[j] == name@[j - k - 1]); assert(name@.contains(name@[j - k - 1])); }
    }
    assert(s[0] == d[0]);
    if name@.len() > 0 { assert(s.last() == name@.last()); } else { assert(s.last() == ':'); }
}
pub proof fn func_back(v: MoreBlock)
    requires edge_ok(v.id@), edge_ok(v.spec@), !v.id@.contains(':')
    ensures solid(func_text(v)), oneline(func_text(v)), func_read(func_text(v)) == Some(v)
{
    broadcast use vp_views, ax_white;
    let s = func_text(v);
    let k = v.id@.len() as int;
    assert forall|j: int| 0 <= j < k implies s[j] != ':' by { assert(s[j] == v.id@[j]); assert(v.id@.contains(v.id@[j])); }
    assert(s[k] == ':');
    find_ch(s, ':', 0, k);
    assert(s.take(k) =~= v.id@);
    assert(s.skip(k + 1) =~= v.spec@);
    assert forall|j: int| 0 <= j < s.len() implies s[j] != '\n' by {
        if j < k { assert(s[j] == v.id@[j]); assert(v.id@.contains(v.id@[j])); } else if j > k { assert(s[j] == v.spec@[j - k - 1]); assert(v.spec@.contains(v.spec@[j - k - 1])); }
    }
    if k > 0 { assert(s[0] == v.id@[0]); }
    if v.spec@.len() > 0 { assert(s.last() == v.spec@.last()); } else { assert(s.last() == ':'); }
}
// ---- the lines of one section
pub open spec fn reads_as<T>(ts: Lines, f: spec_fn(Seq<char>) -> Option<T>, xs: Seq<T>) -> bool { ts.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> (#[trigger] ts[i]).len() > 0 && f(ts[i]) == Some(xs[i]) }
pub proof fn pool_runs<T>(ts: Lines, xs: Seq<T>, f: spec_fn(Seq<char>) -> Option<T>, rest: Lines, acc: Seq<T>) requires reads_as(ts, f, xs) ensures pool_run(ts + rest, acc, f) == pool_run(rest, acc + xs, f) decreases xs.len()
{
    if xs.len() == 0 { assert(ts + rest =~= rest); assert(acc + xs =~= acc); }
    else {
        let ls = ts + rest;
        assert(ls[0] == ts[0]);
        assert(ls.skip(1) =~= ts.skip(1) + rest);
        assert(reads_as(ts.skip(1), f, xs.skip(1))) by { assert forall|i: int| 0 <= i < xs.skip(1).len() implies (#[trigger] ts.skip(1)[i]).len() > 0 && f(ts.skip(1)[i]) == Some(xs.skip(1)[i]) by { assert(ts.skip(1)[i] == ts[i + 1]); } }
        pool_runs(ts.skip(1), xs.skip(1), f, rest, acc.push(xs[0]));
        assert(acc.push(xs[0]) + xs.skip(1) =~= acc + xs);
    }
}
/// up to the blank line, or up to the end
pub proof fn pool_ends<T>(ts: Lines, xs: Seq<T>, f: spec_fn(Seq<char>) -> Option<T>, rest: Lines) requires reads_as(ts, f, xs)
    ensures pool_run(ts + blank() + rest, Seq::empty(), f) == Some((xs, rest)), pool_run(ts, Seq::empty(), f) == Some((xs, Seq::<Seq<char>>::empty()))
{
    let e = Seq::<Seq<char>>::empty();
    pool_runs(ts, xs, f, blank() + rest, Seq::empty()); pool_runs(ts, xs, f, e, Seq::empty());
    assert(Seq::<T>::empty() + xs =~= xs);
    assert(ts + blank() + rest =~= ts + (blank() + rest)); assert(ts + e =~= ts);
    assert((blank() + rest)[0].len() == 0); assert((blank() + rest).skip(1) =~= rest);
}
pub proof fn json_reads<T: VpCodec>(xs: Seq<T>) requires all_objs(xs) ensures reads_as(item_texts(xs), rd_json::<T>(), xs)
{ assert forall|i: int| 0 <= i < xs.len() implies (#[trigger] item_texts(xs)[i]).len() > 0 && (rd_json::<T>())(item_texts(xs)[i]) == Some(xs[i]) by { assert(is_obj(xs[i])); obj_text(xs[i]); } }
pub open spec fn good_vars(s: Seq<(String, Variable)>) -> bool { lhm_ok(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == s[i].1.name && edge_ok(s[i].1.name@) }
pub open spec fn good_lists(s: Seq<(String, ListVariable)>) -> bool { lhm_ok(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == s[i].1.name && edge_ok(s[i].1.name@) }
pub open spec fn good_funcs(s: Seq<(String, MoreBlock)>) -> bool { lhm_ok(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == s[i].1.id && edge_ok(s[i].1.id@) && edge_ok(s[i].1.spec@) && !s[i].1.id@.contains(':') }
pub proof fn vars_read(p: VariablePool) requires good_vars(p.0@) ensures reads_as(var_lines(p), rd_var(), vals(p.0@)), VariablePool(lhm_of(map_var(vals(p.0@)))) == p, solids(var_lines(p)), onelines(var_lines(p))
{
    broadcast use vp_maps, vp_views;
    let s = p.0@;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] var_lines(p)[i]).len() > 0 && (rd_var())(var_lines(p)[i]) == Some(vals(s)[i]) && solid(var_lines(p)[i]) && oneline(var_lines(p)[i]) by { assert(s[i].0 == s[i].1.name); typed_back(s[i].1.r#type, s[i].1.name); }
    assert forall|i: int| 0 <= i < s.len() implies e_var(vals(s)[i]) == #[trigger] s[i] by {}
    assert(vals(s).map_values(|x: Variable| e_var(x)) =~= s);
    put_all_is(s);
}
pub proof fn lists_read(p: ListVariablePool) requires good_lists(p.0@) ensures reads_as(list_lines(p), rd_list(), vals(p.0@)), ListVariablePool(lhm_of(map_list(vals(p.0@)))) == p, solids(list_lines(p)), onelines(list_lines(p))
{
    broadcast use vp_maps, vp_views;
    let s = p.0@;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] list_lines(p)[i]).len() > 0 && (rd_list())(list_lines(p)[i]) == Some(vals(s)[i]) && solid(list_lines(p)[i]) && oneline(list_lines(p)[i]) by { assert(s[i].0 == s[i].1.name); typed_back(s[i].1.r#type, s[i].1.name); }
    assert forall|i: int| 0 <= i < s.len() implies e_list(vals(s)[i]) == #[trigger] s[i] by {}
    assert(vals(s).map_values(|x: ListVariable| e_list(x)) =~= s);
    put_all_is(s);
}
pub proof fn funcs_read(p: MoreBlockPool) requires good_funcs(p.0@) ensures reads_as(func_lines(p), rd_func(), vals(p.0@)), MoreBlockPool(lhm_of(map_func(vals(p.0@)))) == p, solids(func_lines(p)), onelines(func_lines(p))
{
    broadcast use vp_maps, vp_views;
    let s = p.0@;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] func_lines(p)[i]).len() > 0 && (rd_func())(func_lines(p)[i]) == Some(vals(s)[i]) && solid(func_lines(p)[i]) && oneline(func_lines(p)[i]) by { assert(s[i].0 == s[i].1.id); func_back(s[i].1); }
    assert forall|i: int| 0 <= i < s.len() implies e_func(vals(s)[i]) == #[trigger] s[i] by {}
    assert(vals(s).map_values(|x: MoreBlock| e_func(x)) =~= s);
    put_all_is(s);
}
// ---- headers
pub open spec fn java() -> Seq<char> { seq!['.', 'j', 'a', 'v', 'a', '_'] }
pub open spec fn free(s: Seq<char>) -> bool { forall|p: int| 0 <= p && p + 6 <= s.len() ==> #[trigger] s.subrange(p, p + 6) != java() }
/// the mark occurs once in a header
pub proof fn one_mark(a: Seq<char>, b: Seq<char>, p: int) requires free(a), free(b), 0 <= p, p + 6 <= (a + java() + b).len(), (a + java() + b).subrange(p, p + 6) == java() ensures p == a.len()
{
    let s = a + java() + b;
    let w = s.subrange(p, p + 6);
    let n = a.len() as int;
    assert(java()[1] != '.' && java()[2] != '.' && java()[3] != '.' && java()[4] != '.' && java()[5] != '.' && java()[0] == '.');
    if p + 6 <= n { assert(w =~= a.subrange(p, p + 6)); }
    else if p < n { let j = n - p; assert(w[j] == s[n]); assert(s[n] == java()[0]); assert(j == 1 || j == 2 || j == 3 || j == 4 || j == 5); assert(java()[j] != '.'); }
    else if p > n && p < n + 6 { let j = p - n; assert(w[0] == s[p]); assert(s[p] == java()[j]); assert(j == 1 || j == 2 || j == 3 || j == 4 || j == 5); assert(java()[j] != '.'); }
    else if p >= n + 6 { let q = p - n - 6; assert(w =~= b.subrange(q, q + 6)); }
}
pub proof fn mark_split(a: Seq<char>, b: Seq<char>) requires free(a), free(b) ensures find(a + java() + b, java()) == Some(a.len() as int), split(a + java() + b, java()).len() == 2, split(a + java() + b, java())[0] == a, split(a + java() + b, java())[1] == b
{
    let s = a + java() + b;
    find_at(s, java(), 0);
    let n = a.len() as int;
    assert(s.subrange(n, n + 6) =~= java());
    if let Some(k) = find(s, java()) { one_mark(a, b, k); }
    assert(s.take(n) =~= a); assert(s.skip(n + 6) =~= b);
    find_at(b, java(), 0);
    assert(split(b, java()) == seq![b]);
}
pub open spec fn ids_bad(b: Seq<char>) -> bool { b == seq!['v', 'a', 'r'] || b == seq!['l', 'i', 's', 't'] || b == seq!['c', 'o', 'm', 'p', 'o', 'n', 'e', 'n', 't', 's'] || b == seq!['e', 'v', 'e', 'n', 't', 's'] || b == seq!['f', 'u', 'n', 'c'] }
pub proof fn words() ensures
    ".java_"@ == java(), ".java_var"@ == java() + seq!['v', 'a', 'r'], ".java_list"@ == java() + seq!['l', 'i', 's', 't'], ".java_components"@ == java() + seq!['c', 'o', 'm', 'p', 'o', 'n', 'e', 'n', 't', 's'],
    ".java_events"@ == java() + seq!['e', 'v', 'e', 'n', 't', 's'], ".java_func"@ == java() + seq!['f', 'u', 'n', 'c'], "@"@ == seq!['@'],
{
    reveal_strlit(".java_"); reveal_strlit(".java_var"); reveal_strlit(".java_list"); reveal_strlit(".java_components"); reveal_strlit(".java_events"); reveal_strlit(".java_func"); reveal_strlit("@");
    assert(".java_"@ =~= java()); assert(".java_var"@ =~= java() + seq!['v', 'a', 'r']); assert(".java_list"@ =~= java() + seq!['l', 'i', 's', 't']); assert(".java_components"@ =~= java() + seq!['c', 'o', 'm', 'p', 'o', 'n', 'e', 'n', 't', 's']);
    assert(".java_events"@ =~= java() + seq!['e', 'v', 'e', 'n', 't', 's']); assert(".java_func"@ =~= java() + seq!['f', 'u', 'n', 'c']); assert("@"@ =~= seq!['@']);
}
/// a header ends with a mark and a word only if that word follows the mark
pub proof fn ends_is(a: Seq<char>, b: Seq<char>, w: Seq<char>) requires free(a), free(b) ensures ends(a + java() + b, java() + w) <==> b == w, b == w ==> (a + java() + b).take((a + java() + b).len() - (java() + w).len()) == a
{
    let s = a + java() + b;
    let x = java() + w;
    if b == w { assert(s.skip(s.len() - x.len()) =~= x); assert(s.take(s.len() - x.len()) =~= a); }
    if ends(s, x) {
        let p = s.len() - x.len();
        assert(s.subrange(p, p + 6) =~= s.skip(p).take(6)); assert(x.take(6) =~= java());
        one_mark(a, b, p);
        assert(b =~= s.skip(p).skip(6)); assert(x.skip(6) =~= w);
    }
}
pub open spec fn sec_word(s: Sec) -> Seq<char> {
    match s { Sec::Vars(_, _) => seq!['v', 'a', 'r'], Sec::Lists(_, _) => seq!['l', 'i', 's', 't'], Sec::Comps(_, _) => seq!['c', 'o', 'm', 'p', 'o', 'n', 'e', 'n', 't', 's'], Sec::Events(_, _) => seq!['e', 'v', 'e', 'n', 't', 's'], Sec::Funcs(_, _) => seq!['f', 'u', 'n', 'c'], Sec::Code(_, c, _) => c@ }
}
pub open spec fn sec_head(s: Sec) -> Seq<char> { seq!['@'] + (sec_name(s)@ + java() + sec_word(s)) }
pub open spec fn sec_body(s: Sec) -> Lines { match s { Sec::Vars(_, p) => var_lines(p), Sec::Lists(_, p) => list_lines(p), Sec::Comps(_, p) => item_texts(p.0@), Sec::Events(_, p) => item_texts(p.0@), Sec::Funcs(_, p) => func_lines(p), Sec::Code(_, _, p) => item_texts(p.0@) } }
pub open spec fn sec_lines(s: Sec) -> Lines { seq![sec_head(s)] + sec_body(s) }
pub open spec fn good_body(s: Sec) -> bool { match s { Sec::Vars(_, p) => good_vars(p.0@), Sec::Lists(_, p) => good_lists(p.0@), Sec::Funcs(_, p) => good_funcs(p.0@), Sec::Comps(_, p) => all_objs(p.0@), Sec::Events(_, p) => all_objs(p.0@), Sec::Code(_, c, p) => all_objs(p.0@) && !ids_bad(c@) } }
pub open spec fn good_sec(s: Sec) -> bool { oneline(sec_name(s)@) && free(sec_name(s)@) && oneline(sec_word(s)) && free(sec_word(s)) && (sec_word(s).len() > 0 ==> !white(sec_word(s).last())) && good_body(s) }
pub proof fn sec_solid(s: Sec) requires good_sec(s) ensures solids(sec_lines(s)), onelines(sec_lines(s)), solid(sec_head(s)), oneline(sec_head(s)), solids(sec_body(s)), onelines(sec_body(s))
{
    broadcast use ax_white;
    match s { Sec::Vars(_, p) => { vars_read(p); }, Sec::Lists(_, p) => { lists_read(p); }, Sec::Funcs(_, p) => { funcs_read(p); }, Sec::Comps(_, p) => { items_solid(p.0@); }, Sec::Events(_, p) => { items_solid(p.0@); }, Sec::Code(_, _, p) => { items_solid(p.0@); } }
    let h = sec_head(s); let (n, w) = (sec_name(s)@, sec_word(s));
    let k = n.len() as int;
    assert forall|j: int| 0 <= j < h.len() implies h[j] != '\n' by {
        if 1 <= j <= k { assert(h[j] == n[j - 1]); assert(n.contains(n[j - 1])); }
        else if k < j <= k + 6 { assert(h[j] == java()[j - k - 1]); }
        else if j > k + 6 { assert(h[j] == w[j - k - 7]); assert(w.contains(w[j - k - 7])); }
    }
    assert(h[0] == '@');
    if w.len() > 0 { assert(h.last() == w.last()); } else { assert(h.last() == java().last()); }
    assert(solids(seq![h])); assert(onelines(seq![h]));
    solids_add(seq![h], sec_body(s)); onelines_add(seq![h], sec_body(s));
}
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
pub proof fn sec_reads(s: Sec, t: Lines, rest: Lines) requires good_sec(s), t == sec_lines(s) + blank() + rest || (t == sec_lines(s) && rest.len() == 0) ensures sec_read(t) == Some((s, rest)), starts(t[0], "@"@), rest.len() < t.len()
{
    broadcast use vp_views, vp_maps;
    words();
    let h = sec_head(s); let (n, w) = (sec_name(s)@, sec_word(s));
    let b = sec_body(s);
    let l = n + java() + w;
    assert(t[0] == h);
    assert(h.take(1) =~= seq!['@']);
    assert(h.skip(1) =~= l);
    ends_is(n, w, seq!['v', 'a', 'r']); ends_is(n, w, seq!['l', 'i', 's', 't']); ends_is(n, w, seq!['c', 'o', 'm', 'p', 'o', 'n', 'e', 'n', 't', 's']); ends_is(n, w, seq!['e', 'v', 'e', 'n', 't', 's']); ends_is(n, w, seq!['f', 'u', 'n', 'c']);
    let (w1, w2, w3, w4, w5) = (seq!['v', 'a', 'r'], seq!['l', 'i', 's', 't'], seq!['c', 'o', 'm', 'p', 'o', 'n', 'e', 'n', 't', 's'], seq!['e', 'v', 'e', 'n', 't', 's'], seq!['f', 'u', 'n', 'c']);
    assert(w1.len() == 3 && w2.len() == 4 && w3.len() == 10 && w4.len() == 6 && w5.len() == 4 && w2[0] == 'l' && w5[0] == 'f');
    let u = t.skip(1);
    if rest.len() == 0 { assert(rest =~= Seq::<Seq<char>>::empty()); }
    assert(u =~= b + blank() + rest || u =~= b);
    assert(string_of(n) == sec_name(s));
    match s {
        Sec::Vars(_, p) => { vars_read(p); pool_ends(b, vals(p.0@), rd_var(), rest); }
        Sec::Lists(_, p) => { lists_read(p); pool_ends(b, vals(p.0@), rd_list(), rest); }
        Sec::Funcs(_, p) => { funcs_read(p); pool_ends(b, vals(p.0@), rd_func(), rest); }
        Sec::Comps(_, p) => { json_reads(p.0@); pool_ends(b, p.0@, rd_json::<Component>(), rest); }
        Sec::Events(_, p) => { json_reads(p.0@); pool_ends(b, p.0@, rd_json::<PEvent>(), rest); }
        Sec::Code(_, c, p) => {
            json_reads(p.0@); pool_ends(b, p.0@, rd_json::<Block>(), rest);
            let a = seq!['@'] + n;
            assert(free(a)) by { assert forall|q: int| 0 <= q && q + 6 <= a.len() implies #[trigger] a.subrange(q, q + 6) != java() by { if q == 0 { assert(a.subrange(0, 6)[0] == '@'); assert(java()[0] == '.'); } else { let r = q - 1; assert(a.subrange(q, q + 6) =~= n.subrange(r, r + 6)); } } }
            mark_split(a, w);
            assert(h =~= a + java() + w);
            assert(a.skip(1) =~= n);
        }
    }
}
pub open spec fn good_secs(a: Seq<Sec>) -> bool { forall|i: int| 0 <= i < a.len() ==> good_sec(#[trigger] a[i]) }
pub open spec fn flat(a: Seq<Sec>) -> Lines decreases a.len() { if a.len() == 0 { seq![] } else { flat(a.drop_last()) + sec_lines(a.last()) + blank() } }
pub open spec fn put_secs(st: Logics, a: Seq<Sec>) -> Logics decreases a.len() { if a.len() == 0 { st } else { put_sec(put_secs(st, a.drop_last()), a.last()) } }
pub proof fn flat_run(a: Seq<Sec>, rest: Lines, st: Logics) requires good_secs(a) ensures logic_run(flat(a) + rest, st) == logic_run(rest, put_secs(st, a)) decreases a.len()
{
    if a.len() == 0 { assert(flat(a) + rest =~= rest); }
    else {
        let d = a.drop_last(); let s = a.last();
        assert(good_secs(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_sec(#[trigger] d[i]) by { assert(d[i] == a[i]); } }
        assert(good_sec(a[a.len() - 1]));
        let r = sec_lines(s) + blank() + rest;
        assert(flat(a) + rest =~= flat(d) + r);
        flat_run(d, r, st);
        sec_reads(s, r, rest);
    }
}
/// the text of a group of sections
pub open spec fn ptext(a: Seq<Sec>) -> Seq<char> decreases a.len() { if a.len() == 0 { seq![] } else { ptext(a.drop_last()) + (unlines(sec_lines(a.last())) + nl()) } }
pub proof fn ptext_add(a: Seq<Sec>, b: Seq<Sec>) ensures ptext(a + b) == ptext(a) + ptext(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(ptext(a) + ptext(b) =~= ptext(a)); }
    else { ptext_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(ptext(a + b) =~= ptext(a) + ptext(b)); }
}
pub proof fn ptext_flat(a: Seq<Sec>) requires good_secs(a) ensures ptext(a) == unlines(flat(a)), onelines(flat(a)) decreases a.len()
{
    if a.len() > 0 {
        let d = a.drop_last(); let s = a.last();
        assert(good_secs(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_sec(#[trigger] d[i]) by { assert(d[i] == a[i]); } }
        assert(good_sec(a[a.len() - 1]));
        ptext_flat(d); sec_solid(s);
        unlines_add(flat(d), sec_lines(s)); unlines_add(flat(d) + sec_lines(s), blank()); unlines1(Seq::empty());
        assert(onelines(blank()));
        onelines_add(flat(d), sec_lines(s)); onelines_add(flat(d) + sec_lines(s), blank());
        assert(ptext(a) =~= unlines(flat(a)));
    }
}
pub open spec fn nl2() -> Seq<char> { nl() + nl() }
/// a group without the blank lines after it
pub open spec fn gtext(a: Seq<Sec>) -> Seq<char> { ptext(a.drop_last()) + join(sec_lines(a.last())) }
pub proof fn gtext_is(a: Seq<Sec>) requires a.len() > 0, good_secs(a) ensures ptext(a) == gtext(a) + nl2(), solid(gtext(a))
{
    let d = a.drop_last(); let s = a.last();
    assert(good_sec(a[a.len() - 1]));
    sec_solid(s); join_unlines(sec_lines(s)); join_solid(sec_lines(s));
    assert(ptext(a) =~= gtext(a) + nl2());
    assert(gtext(a).last() == join(sec_lines(s)).last());
    if d.len() == 0 { assert(gtext(a) =~= join(sec_lines(s))); }
    else {
        assert(good_secs(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_sec(#[trigger] d[i]) by { assert(d[i] == a[i]); } }
        assert(good_sec(a[0])); sec_solid(a[0]);
        ptext_first(d);
        assert(gtext(a)[0] == ptext(d)[0]);
        assert(d[0] == a[0]);
        assert(sec_head(d[0])[0] == '@'); 
    }
}
pub proof fn ptext_first(a: Seq<Sec>) requires a.len() > 0 ensures ptext(a).len() > 0, ptext(a)[0] == sec_head(a[0])[0] decreases a.len()
{
    if a.len() > 1 { ptext_first(a.drop_last()); assert(ptext(a)[0] == ptext(a.drop_last())[0]); }
    else {
        assert(a.drop_last() =~= Seq::empty());
        let l = sec_lines(a[0]);
        unlines_add(seq![sec_head(a[0])], sec_body(a[0])); unlines1(sec_head(a[0]));
        reveal_with_fuel(ptext, 2); assert(a.last() == a[0]); assert(ptext(a) =~= unlines(l) + nl());
        assert(seq![sec_head(a[0])] + sec_body(a[0]) == l);
        assert(unlines(l)[0] == sec_head(a[0])[0]);
    }
}
pub proof fn trim_two(s: Seq<char>) requires solid(s) ensures trim_s(s + nl2()) == s, trim_s(nl2() + s) == s
{
    broadcast use ax_white;
    assert((s + nl2()).drop_last() =~= s + nl()); assert((s + nl2()).last() == '\n'); assert((s + nl2())[0] == s[0]);
    assert((s + nl()).drop_last() =~= s); assert((s + nl()).last() == '\n');
    assert((nl2() + s).skip(1) =~= nl() + s); assert((nl2() + s)[0] == '\n'); assert((nl() + s).skip(1) =~= s); assert((nl() + s)[0] == '\n');
    reveal_with_fuel(trim_end_s, 4); reveal_with_fuel(trim_start_s, 4);
}
// ---- the sections of a whole file
pub open spec fn code_secs(name: String, bs: Seq<(String, BlockContainer)>) -> Seq<Sec> { bs.map_values(|e: (String, BlockContainer)| Sec::Code(name, e.0, e.1)) }
pub open spec fn own_secs(s: ScreenLogic, k: int) -> Seq<Sec> {
    if k == 0 { match s.variables { Some(p) => seq![Sec::Vars(s.name, p)], None => seq![] } }
    else if k == 1 { match s.list_variables { Some(p) => seq![Sec::Lists(s.name, p)], None => seq![] } }
    else if k == 2 { match s.components { Some(p) => seq![Sec::Comps(s.name, p)], None => seq![] } }
    else if k == 3 { match s.events { Some(p) => seq![Sec::Events(s.name, p)], None => seq![] } }
    else if k == 4 { match s.more_blocks { Some(p) => seq![Sec::Funcs(s.name, p)], None => seq![] } }
    else { code_secs(s.name, s.block_containers@) }
}
pub open spec fn secs(ss: Logics, k: int) -> Seq<Sec> decreases ss.len() { if ss.len() == 0 { seq![] } else { secs(ss.drop_last(), k) + own_secs(ss.last().1, k) } }
pub open spec fn all_secs(ss: Logics) -> Seq<Sec> { secs(ss, 0) + secs(ss, 1) + secs(ss, 2) + secs(ss, 3) + secs(ss, 4) + secs(ss, 5) }
pub proof fn code_ptext(name: String, bs: Seq<(String, BlockContainer)>) ensures code_texts(name@, bs) == ptext(code_secs(name, bs)) decreases bs.len()
{
    words();
    if bs.len() > 0 {
        let d = bs.drop_last(); let e = bs.last(); let s = Sec::Code(name, e.0, e.1);
        code_ptext(name, d);
        let a = code_secs(name, bs);
        assert(a.drop_last() =~= code_secs(name, d)); assert(a.last() == s);
        unlines_add(seq![sec_head(s)], sec_body(s)); unlines1(sec_head(s));
        assert(code_texts(name@, bs) =~= ptext(a));
    }
}
/// the text written for the sections of one kind of one screen, once it has been trimmed
pub proof fn own_trim(s: ScreenLogic, k: int) requires 0 <= k < 6, good_secs(own_secs(s, k)) ensures (own_text(s, k).len() == 0 && own_secs(s, k).len() == 0) || (own_text(s, k).len() == 1 && own_secs(s, k).len() > 0 && trim_s(own_text(s, k)[0]) == gtext(own_secs(s, k)))
{
    words();
    let a = own_secs(s, k);
    if k == 5 {
        code_ptext(s.name, s.block_containers@);
        if a.len() > 0 { gtext_is(a); trim_two(gtext(a)); ptext_first(a); }
    } else if a.len() > 0 {
        reveal_strlit(".java_var\n"); reveal_strlit(".java_list\n"); reveal_strlit(".java_components\n"); reveal_strlit(".java_events\n"); reveal_strlit(".java_func\n");
        reveal_strlit(".java_var"); reveal_strlit(".java_list"); reveal_strlit(".java_components"); reveal_strlit(".java_events"); reveal_strlit(".java_func");
        assert(".java_var\n"@ =~= ".java_var"@ + nl()); assert(".java_list\n"@ =~= ".java_list"@ + nl()); assert(".java_components\n"@ =~= ".java_components"@ + nl()); assert(".java_events\n"@ =~= ".java_events"@ + nl()); assert(".java_func\n"@ =~= ".java_func"@ + nl());
        let c = a[0];
        assert(a.drop_last() =~= Seq::empty());
        assert(gtext(a) =~= join(sec_lines(c)));
        assert(good_sec(a[0]));
        sec_solid(c);
        let (h, b) = (sec_head(c), sec_body(c));
        trim_lines(b);
        let t = own_text(s, k)[0];
        assert(t =~= h + nl() + joined(b));
        join_unlines(sec_lines(c)); unlines_add(seq![h], b); unlines1(h);
        if b.len() == 0 { assert(b =~= Seq::empty()); assert(sec_lines(c) =~= seq![h]); assert(t =~= h + nl()); trim_after(h); }
        else { join_unlines(b); assert((h + nl() + joined(b)) + nl() =~= join(sec_lines(c)) + nl()); same_start(t, join(sec_lines(c)), nl()); join_solid(sec_lines(c)); trim_solid(t); }
    }
}
pub proof fn same_start(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires a + c == b + c ensures a == b
{ assert((a + c).len() == a.len() + c.len()); assert((b + c).len() == b.len() + c.len()); assert(a.len() == b.len()); assert((a + c).take(a.len() as int) =~= a); assert((b + c).take(b.len() as int) =~= b); }
pub proof fn glue_add(a: Lines, b: Lines) ensures glue(a + b) == glue(a) + glue(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(glue(a) + glue(b) =~= glue(a)); }
    else { glue_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(glue(a + b) =~= glue(a) + glue(b)); }
}
pub open spec fn fits(t: Lines, a: Seq<Sec>) -> bool { glue(t) + nl2() == nl2() + ptext(a) }
pub proof fn fits_add(t: Lines, a: Seq<Sec>, u: Lines, b: Seq<Sec>) requires fits(t, a), fits(u, b) ensures fits(t + u, a + b)
{
    glue_add(t, u); ptext_add(a, b);
    assert((glue(t) + glue(u)) + nl2() =~= glue(t) + (glue(u) + nl2()));
    assert(glue(t) + (nl2() + ptext(b)) =~= (glue(t) + nl2()) + ptext(b));
    assert((nl2() + ptext(a)) + ptext(b) =~= nl2() + (ptext(a) + ptext(b)));
}
pub proof fn own_fits(s: ScreenLogic, k: int) requires 0 <= k < 6, good_secs(own_secs(s, k)) ensures fits(own_text(s, k), own_secs(s, k))
{
    own_trim(s, k);
    let (t, a) = (own_text(s, k), own_secs(s, k));
    if t.len() == 0 { assert(glue(t) + nl2() =~= nl2() + ptext(a)); }
    else {
        gtext_is(a);
        assert(t.drop_last() =~= Seq::empty());
        assert(glue(t) =~= nl2() + gtext(a)) by { reveal_with_fuel(glue, 2); }
        assert(glue(t) + nl2() =~= nl2() + ptext(a));
    }
}
pub proof fn sect_fits(ss: Logics, k: int) requires 0 <= k < 6, good_logics(ss) ensures fits(sect(ss, k), secs(ss, k)), good_secs(secs(ss, k)) decreases ss.len()
{
    if ss.len() == 0 { assert(glue(sect(ss, k)) + nl2() =~= nl2() + ptext(secs(ss, k))); }
    else {
        let d = ss.drop_last();
        assert(good_logics(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_entry(#[trigger] d[i]) by { assert(d[i] == ss[i]); } }
        assert(good_entry(ss[ss.len() - 1]));
        let l = ss.last().1;
        assert(good_own(l, k));
        sect_fits(d, k); own_fits(l, k);
        fits_add(sect(d, k), secs(d, k), own_text(l, k), own_secs(l, k));
        good_add(secs(d, k), own_secs(l, k));
    }
}
pub proof fn good_add(a: Seq<Sec>, b: Seq<Sec>) requires good_secs(a), good_secs(b) ensures good_secs(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies good_sec(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn all_fits(ss: Logics) requires good_logics(ss) ensures fits(all_sect(ss), all_secs(ss)), good_secs(all_secs(ss))
{
    sect_fits(ss, 0); sect_fits(ss, 1); sect_fits(ss, 2); sect_fits(ss, 3); sect_fits(ss, 4); sect_fits(ss, 5);
    let (t0, t1, t2, t3, t4, t5) = (sect(ss, 0), sect(ss, 1), sect(ss, 2), sect(ss, 3), sect(ss, 4), sect(ss, 5));
    let (a0, a1, a2, a3, a4, a5) = (secs(ss, 0), secs(ss, 1), secs(ss, 2), secs(ss, 3), secs(ss, 4), secs(ss, 5));
    fits_add(t0, a0, t1, a1); good_add(a0, a1);
    fits_add(t0 + t1, a0 + a1, t2, a2); good_add(a0 + a1, a2);
    fits_add(t0 + t1 + t2, a0 + a1 + a2, t3, a3); good_add(a0 + a1 + a2, a3);
    fits_add(t0 + t1 + t2 + t3, a0 + a1 + a2 + a3, t4, a4); good_add(a0 + a1 + a2 + a3, a4);
    fits_add(t0 + t1 + t2 + t3 + t4, a0 + a1 + a2 + a3 + a4, t5, a5); good_add(a0 + a1 + a2 + a3 + a4, a5);
}
/// what a logic file can carry: names on one line and without the mark; every screen has a section
pub open spec fn good_own(l: ScreenLogic, k: int) -> bool { good_secs(own_secs(l, k)) }
pub open spec fn some_sec(l: ScreenLogic) -> bool { l.variables is Some || l.list_variables is Some || l.components is Some || l.events is Some || l.more_blocks is Some || l.block_containers@.len() > 0 }
pub open spec fn good_entry(e: (String, ScreenLogic)) -> bool { e.0 == e.1.name && lhm_ok(e.1.block_containers@) && some_sec(e.1) && forall|k: int| 0 <= k < 6 ==> #[trigger] good_own(e.1, k) }
pub open spec fn good_logics(ss: Logics) -> bool { forall|i: int| 0 <= i < ss.len() ==> good_entry(#[trigger] ss[i]) }
// ---- the screens that come out
pub open spec fn filt(a: Seq<Sec>, n: String) -> Seq<Sec> decreases a.len() { if a.len() == 0 { seq![] } else if sec_name(a.last()) == n { filt(a.drop_last(), n).push(a.last()) } else { filt(a.drop_last(), n) } }
pub open spec fn apply(l: ScreenLogic, a: Seq<Sec>) -> ScreenLogic decreases a.len() { if a.len() == 0 { l } else { sec_on(apply(l, a.drop_last()), a.last()) } }
pub open spec fn made(a: Seq<Sec>, n: String) -> Option<ScreenLogic> { if a.len() == 0 { None } else { Some(apply(empty_logic(n), a)) } }
pub proof fn put_secs_get(a: Seq<Sec>, n: String) ensures lhm_ok(put_secs(Seq::empty(), a)), lhm_get(put_secs(Seq::empty(), a), n) == made(filt(a, n), n) decreases a.len()
{
    if a.len() > 0 {
        let d = a.drop_last(); let s = a.last();
        let st = put_secs(Seq::empty(), d);
        put_secs_get(d, n);
        lhm_get_put(st, sec_name(s), sec_on(logic_at(st, sec_name(s)), s), n);
        if sec_name(s) == n { assert(filt(a, n).drop_last() =~= filt(d, n)); assert(filt(a, n).last() == s); }
    }
}
pub proof fn filt_add(a: Seq<Sec>, b: Seq<Sec>, n: String) ensures filt(a + b, n) == filt(a, n) + filt(b, n) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(filt(a, n) + filt(b, n) =~= filt(a, n)); }
    else { filt_add(a, b.drop_last(), n); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(filt(a + b, n) =~= filt(a, n) + filt(b, n)); }
}
pub proof fn filt_same(a: Seq<Sec>, m: String, n: String) requires forall|i: int| 0 <= i < a.len() ==> sec_name(#[trigger] a[i]) == m ensures filt(a, n) == (if m == n { a } else { Seq::empty() }) decreases a.len()
{
    if a.len() > 0 {
        let d = a.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies sec_name(#[trigger] d[i]) == m by { assert(d[i] == a[i]); }
        filt_same(d, m, n);
        assert(sec_name(a[a.len() - 1]) == m);
        assert(d.push(a.last()) =~= a);
    } else { assert(a =~= Seq::empty()); }
}
pub open spec fn own_of(l: Option<ScreenLogic>, k: int) -> Seq<Sec> { match l { Some(x) => own_secs(x, k), None => seq![] } }
pub proof fn filt_secs(ss: Logics, k: int, n: String) requires lhm_ok(ss), good_logics(ss), 0 <= k < 6 ensures filt(secs(ss, k), n) == own_of(lhm_get(ss, n), k) decreases ss.len()
{
    if ss.len() > 0 {
        let d = ss.drop_last(); let l = ss.last().1;
        assert(good_logics(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_entry(#[trigger] d[i]) by { assert(d[i] == ss[i]); } }
        assert(good_entry(ss[ss.len() - 1]));
        assert(lhm_ok(d));
        filt_secs(d, k, n);
        filt_add(secs(d, k), own_secs(l, k), n);
        filt_same(own_secs(l, k), l.name, n);
        if ss.last().0 == n {
            if lhm_get(d, n) is Some { let i = lhm_get_ix(d, n); assert(ss[i].0 != ss[ss.len() - 1].0); }
            assert(Seq::<Sec>::empty() + own_secs(l, k) =~= own_secs(l, k));
        } else { assert(own_of(lhm_get(d, n), k) + Seq::<Sec>::empty() =~= own_of(lhm_get(d, n), k)); }
    }
}
pub proof fn apply_add(l: ScreenLogic, a: Seq<Sec>, b: Seq<Sec>) ensures apply(l, a + b) == apply(apply(l, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { apply_add(l, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn apply1(l: ScreenLogic, s: Sec) ensures apply(l, seq![s]) == sec_on(l, s) { reveal_with_fuel(apply, 2); assert(seq![s].drop_last() =~= Seq::empty()); assert(seq![s].last() == s); }
pub proof fn apply_code(l: ScreenLogic, name: String, bs: Seq<(String, BlockContainer)>) requires lhm_ok(l.block_containers@) ensures lhm_ok(put_all(l.block_containers@, bs)), apply(l, code_secs(name, bs)) == (ScreenLogic { block_containers: lhm_of(put_all(l.block_containers@, bs)), ..l }) decreases bs.len()
{
    broadcast use vp_maps, vp_views;
    let a = code_secs(name, bs);
    if bs.len() > 0 {
        let d = bs.drop_last();
        apply_code(l, name, d);
        lhm_get_put(put_all(l.block_containers@, d), bs.last().0, bs.last().1, bs.last().0);
        assert(a.drop_last() =~= code_secs(name, d)); assert(a.last() == Sec::Code(name, bs.last().0, bs.last().1));
    }
}
pub proof fn apply_own(l: ScreenLogic) requires lhm_ok(l.block_containers@) ensures apply(empty_logic(l.name), own_secs(l, 0) + own_secs(l, 1) + own_secs(l, 2) + own_secs(l, 3) + own_secs(l, 4) + own_secs(l, 5)) == l
{
    broadcast use vp_maps, vp_views;
    let e = empty_logic(l.name);
    let (a0, a1, a2, a3, a4, a5) = (own_secs(l, 0), own_secs(l, 1), own_secs(l, 2), own_secs(l, 3), own_secs(l, 4), own_secs(l, 5));
    apply_add(e, a0 + a1 + a2 + a3 + a4, a5); apply_add(e, a0 + a1 + a2 + a3, a4); apply_add(e, a0 + a1 + a2, a3); apply_add(e, a0 + a1, a2); apply_add(e, a0, a1);
    let e0 = apply(e, a0); let e1 = apply(e0, a1); let e2 = apply(e1, a2); let e3 = apply(e2, a3); let e4 = apply(e3, a4); let e5 = apply(e4, a5);
    if let Some(p) = l.variables { apply1(e, Sec::Vars(l.name, p)); }
    if let Some(p) = l.list_variables { apply1(e0, Sec::Lists(l.name, p)); }
    if let Some(p) = l.components { apply1(e1, Sec::Comps(l.name, p)); }
    if let Some(p) = l.events { apply1(e2, Sec::Events(l.name, p)); }
    if let Some(p) = l.more_blocks { apply1(e3, Sec::Funcs(l.name, p)); }
    apply_code(e4, l.name, l.block_containers@);
    put_all_is(l.block_containers@);
    assert(e.block_containers@ =~= Seq::empty());
}
pub open spec fn c09_good(x: PLogic) -> bool { lhm_ok(x.screens@) && good_logics(x.screens@) }
pub open spec fn same_screens(x: PLogic, y: PLogic) -> bool { forall|n: String| #[trigger] lhm_get(y.screens@, n) == lhm_get(x.screens@, n) }
/// C09: what is written reads back as the same screens
pub proof fn c09_back(x: PLogic) requires c09_good(x) ensures logic_text(x) is Some, logic_read(logic_text(x)->0) is Some, same_screens(x, logic_read(logic_text(x)->0)->0)
{
    broadcast use vp_maps, vp_views;
    let ss = x.screens@;
    let a = all_secs(ss);
    let text = logic_text(x)->0;
    let g = glue(all_sect(ss));
    let none: Logics = Seq::empty();
    all_fits(ss); words();
    assert(logic_run(lines(text), none) == Some(put_secs(none, a))) by {
        if a.len() == 0 {
            assert(g.len() == 0); assert(g =~= Seq::empty()); trim_empty(); lines_one(text);
            assert(lines(text)[0].len() == 0);
        } else {
            gtext_is(a);
            assert(nl2() + (gtext(a) + nl2()) =~= (nl2() + gtext(a)) + nl2());
            same_start(g, nl2() + gtext(a), nl2());
            trim_two(gtext(a));
            assert(text == gtext(a));
            let d = a.drop_last(); let s = a.last();
            assert(good_secs(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_sec(#[trigger] d[i]) by { assert(d[i] == a[i]); } }
            assert(good_sec(a[a.len() - 1]));
            ptext_flat(d); sec_solid(s);
            lines_unlines(flat(d), join(sec_lines(s)));
            lines_join(sec_lines(s), Seq::empty());
            assert(lines(text) == flat(d) + sec_lines(s));
            flat_run(d, sec_lines(s), none);
            let e = Seq::<Seq<char>>::empty();
            sec_reads(s, sec_lines(s), e);
            assert(logic_run(e, put_secs(none, a)) == Some(put_secs(none, a)));
        }
    }
    let y = logic_read(text)->0;
    assert forall|n: String| #[trigger] lhm_get(y.screens@, n) == lhm_get(ss, n) by {
        put_secs_get(a, n);
        let o = lhm_get(ss, n);
        filt_secs(ss, 0, n); filt_secs(ss, 1, n); filt_secs(ss, 2, n); filt_secs(ss, 3, n); filt_secs(ss, 4, n); filt_secs(ss, 5, n);
        filt_add(secs(ss, 0) + secs(ss, 1) + secs(ss, 2) + secs(ss, 3) + secs(ss, 4), secs(ss, 5), n);
        filt_add(secs(ss, 0) + secs(ss, 1) + secs(ss, 2) + secs(ss, 3), secs(ss, 4), n);
        filt_add(secs(ss, 0) + secs(ss, 1) + secs(ss, 2), secs(ss, 3), n);
        filt_add(secs(ss, 0) + secs(ss, 1), secs(ss, 2), n);
        filt_add(secs(ss, 0), secs(ss, 1), n);
        if let Some(l) = o {
            let i = lhm_get_ix(ss, n);
            assert(good_entry(ss[i]));
            apply_own(l);
            assert(some_sec(l));
        } else { assert(filt(a, n).len() == 0); }
    }
}
