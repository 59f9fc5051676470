// shared by the view and the logic file: sections of lines, maps filled in order
pub open spec fn put_all<V>(m: Seq<(String, V)>, s: Seq<(String, V)>) -> Seq<(String, V)> decreases s.len() { if s.len() == 0 { m } else { lhm_put(put_all(m, s.drop_last()), s.last().0, s.last().1) } }
pub proof fn unlines_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures unlines(a + b) == unlines(a) + unlines(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(unlines(a) + unlines(b) =~= unlines(a)); }
    else { unlines_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(unlines(a + b) =~= unlines(a) + unlines(b)); }
}
pub proof fn unlines1(a: Seq<char>) ensures unlines(seq![a]) == a + nl() { reveal_with_fuel(unlines, 2); assert(seq![a].drop_last() =~= Seq::empty()); assert(seq![a].last() == a); assert(unlines(Seq::empty()) + a + nl() =~= a + nl()); }
pub open spec fn blank() -> Seq<Seq<char>> { seq![Seq::<char>::empty()] }
pub proof fn onelines_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires onelines(a), onelines(b) ensures onelines(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies oneline(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn put_all_is<V>(s: Seq<(String, V)>) requires lhm_ok(s) ensures put_all(Seq::empty(), s) == s decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(lhm_ok(d));
        put_all_is(d);
        if lhm_get(d, s.last().0) is Some { let i = lhm_get_ix(d, s.last().0); assert(s[i].0 != s[s.len() - 1].0); }
        lhm_del_none(d, s.last().0);
        assert(d.push((s.last().0, s.last().1)) =~= s);
    } else { assert(s =~= Seq::empty()); }
}
pub proof fn find_ch(s: Seq<char>, c: char, i: int, k: int)
    requires 0 <= i <= k < s.len(), forall|j: int| i <= j < k ==> s[j] != c, s[k] == c
    ensures find_from(s, seq![c], i) == Some(k)
    decreases k - i
{
    assert(s.subrange(i, i + 1) =~= seq![s[i]]);
    if i < k { assert(s.subrange(i, i + 1)[0] == s[i]); assert(seq![c][0] == c); find_ch(s, c, i + 1, k); }
}
