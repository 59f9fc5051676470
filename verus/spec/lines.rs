/// the lines of a text, and texts made of lines
pub open spec fn nl() -> Seq<char> { seq!['\n'] }
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> { split(s, nl()) }
pub open spec fn oneline(s: Seq<char>) -> bool { !s.contains('\n') }
pub proof fn find_nl(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= k <= s.len(), forall|j: int| i <= j < k ==> s[j] != '\n', k < s.len() ==> s[k] == '\n'
    ensures find_from(s, nl(), i) == (if k < s.len() { Some(k) } else { None::<int> })
    decreases k - i
{
    if i < s.len() {
        assert(s.subrange(i, i + 1) =~= seq![s[i]]);
        assert(nl()[0] == '\n');
        if i < k { assert(s.subrange(i, i + 1)[0] == s[i]); find_nl(s, i + 1, k); }
    }
}
pub proof fn lines_one(a: Seq<char>) requires oneline(a) ensures lines(a) == seq![a]
{ find_nl(a, 0, a.len() as int); }
pub proof fn lines_cons(a: Seq<char>, b: Seq<char>) requires oneline(a) ensures lines(a + nl() + b) == seq![a] + lines(b)
{
    let s = a + nl() + b;
    assert forall|j: int| 0 <= j < a.len() implies s[j] != '\n' by { assert(s[j] == a[j]); assert(a.contains(a[j])); }
    assert(s[a.len() as int] == '\n');
    find_nl(s, 0, a.len() as int);
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip((a.len() + 1) as int) =~= b);
}
/// every line followed by a line break
pub open spec fn unlines(t: Seq<Seq<char>>) -> Seq<char> decreases t.len() { if t.len() == 0 { seq![] } else { unlines(t.drop_last()) + t.last() + nl() } }
/// lines with a line break between them
pub open spec fn join(t: Seq<Seq<char>>) -> Seq<char> decreases t.len() { if t.len() == 0 { seq![] } else if t.len() == 1 { t[0] } else { join(t.drop_last()) + nl() + t.last() } }
/// every line preceded by a line break
pub open spec fn prelines(t: Seq<Seq<char>>) -> Seq<char> decreases t.len() { if t.len() == 0 { seq![] } else { prelines(t.drop_last()) + nl() + t.last() } }
pub open spec fn onelines(t: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < t.len() ==> oneline(#[trigger] t[i]) }
pub proof fn lines_unlines(t: Seq<Seq<char>>, b: Seq<char>) requires onelines(t) ensures lines(unlines(t) + b) == t + lines(b) decreases t.len()
{
    if t.len() == 0 { assert(unlines(t) + b =~= b); assert(t + lines(b) =~= lines(b)); }
    else {
        let d = t.drop_last();
        assert(onelines(d)) by { assert forall|i: int| 0 <= i < d.len() implies oneline(#[trigger] d[i]) by { assert(d[i] == t[i]); } }
        lines_unlines(d, t.last() + nl() + b);
        assert(unlines(t) + b =~= unlines(d) + (t.last() + nl() + b));
        assert(oneline(t[t.len() - 1]));
        lines_cons(t.last(), b);
        assert(d + (seq![t.last()] + lines(b)) =~= t + lines(b));
    }
}
pub proof fn join_unlines(t: Seq<Seq<char>>) requires t.len() > 0 ensures unlines(t) == join(t) + nl(), prelines(t) == nl() + join(t) decreases t.len()
{
    if t.len() > 1 { join_unlines(t.drop_last()); assert(unlines(t) =~= join(t) + nl()); assert(prelines(t) =~= nl() + join(t)); }
    else { reveal_with_fuel(unlines, 2); reveal_with_fuel(prelines, 2); assert(t.drop_last() =~= Seq::empty()); assert(t.last() == t[0]); assert(unlines(t) =~= join(t) + nl()); assert(prelines(t) =~= nl() + join(t)); }
}
pub proof fn lines_join(t: Seq<Seq<char>>, b: Seq<char>) requires onelines(t), t.len() > 0 ensures lines(join(t) + nl() + b) == t + lines(b), lines(join(t)) == t decreases t.len()
{
    join_unlines(t); lines_unlines(t, b);
    if t.len() == 1 { assert(oneline(t[0])); lines_one(t[0]); assert(t =~= seq![t[0]]); }
    else {
        let d = t.drop_last();
        assert(onelines(d)) by { assert forall|i: int| 0 <= i < d.len() implies oneline(#[trigger] d[i]) by { assert(d[i] == t[i]); } }
        assert(oneline(t[t.len() - 1]));
        lines_join(d, t.last()); lines_one(t.last());
        assert(t =~= d + seq![t.last()]);
    }
}
/// a text that neither begins nor ends with white space
pub open spec fn solid(s: Seq<char>) -> bool { s.len() > 0 && !white(s[0]) && !white(s.last()) }
pub proof fn trim_solid(s: Seq<char>) requires solid(s) ensures trim_s(s) == s, trim_end_s(s) == s, trim_start_s(s) == s {}
pub proof fn trim_empty() ensures trim_s(Seq::<char>::empty()) == Seq::<char>::empty() {}
pub proof fn trim_after(s: Seq<char>) requires solid(s) ensures trim_s(s + nl()) == s, trim_end_s(s + nl()) == s
{ broadcast use ax_white; reveal_with_fuel(trim_end_s, 3); reveal_with_fuel(trim_start_s, 3); assert((s + nl()).drop_last() =~= s); assert((s + nl())[0] == s[0]); assert((s + nl()).last() == '\n'); }
pub proof fn trim_before(s: Seq<char>) requires solid(s) ensures trim_s(nl() + s) == s
{ broadcast use ax_white; reveal_with_fuel(trim_end_s, 3); reveal_with_fuel(trim_start_s, 3); assert((nl() + s).skip(1) =~= s); assert((nl() + s)[0] == '\n'); }
pub open spec fn solids(t: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < t.len() ==> solid(#[trigger] t[i]) }
pub proof fn join_solid(t: Seq<Seq<char>>) requires solids(t), t.len() > 0 ensures solid(join(t)) decreases t.len()
{
    if t.len() == 1 { assert(solid(t[0])); }
    else {
        let d = t.drop_last();
        assert(solids(d)) by { assert forall|i: int| 0 <= i < d.len() implies solid(#[trigger] d[i]) by { assert(d[i] == t[i]); } }
        join_solid(d); assert(solid(t[t.len() - 1]));
        assert(join(t)[0] == join(d)[0]); assert(join(t).last() == t.last().last());
    }
}
/// trimming takes the separators off both ends
pub open spec fn joined(t: Seq<Seq<char>>) -> Seq<char> { if t.len() == 0 { seq![] } else { join(t) } }
pub proof fn trim_lines(t: Seq<Seq<char>>) requires solids(t) ensures trim_s(unlines(t)) == joined(t), trim_end_s(unlines(t)) == joined(t), trim_s(prelines(t)) == joined(t)
{ if t.len() > 0 { join_unlines(t); join_solid(t); trim_after(join(t)); trim_before(join(t)); } }
