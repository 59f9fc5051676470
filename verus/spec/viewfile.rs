pub use crate::parser::view::{View as PView, Layout as PLayout};
pub use crate::parser::view::models::AndroidView;
/// the views of a layout: one per line, up to a blank line
pub open spec fn layout_run(ls: Seq<Seq<char>>, acc: Seq<AndroidView>) -> Option<(Seq<AndroidView>, Seq<Seq<char>>)> decreases ls.len() {
    if ls.len() == 0 { Some((acc, ls)) } else if ls[0].len() == 0 { Some((acc, ls.skip(1))) } else {
        match jread::<AndroidView>(ls[0]) { Some(x) => layout_run(ls.skip(1), acc.push(x)), None => None }
    }
}
pub proof fn layout_run_len(ls: Seq<Seq<char>>, acc: Seq<AndroidView>) ensures layout_run(ls, acc) matches Some(r) ==> r.1.len() <= ls.len() && (ls.len() > 0 ==> r.1.len() < ls.len()) decreases ls.len()
{ if ls.len() > 0 && ls[0].len() > 0 { if let Some(x) = jread::<AndroidView>(ls[0]) { layout_run_len(ls.skip(1), acc.push(x)); } } }
pub open spec fn at_sign() -> Seq<char> { seq!['@'] }
pub open spec fn dot() -> Seq<char> { seq!['.'] }
pub open spec fn xml() -> Seq<char> { seq!['x', 'm', 'l'] }
pub open spec fn xml_fab() -> Seq<char> { seq!['x', 'm', 'l', '_', 'f', 'a', 'b'] }
pub type LaySeq = Seq<(String, PLayout)>;
pub type FabSeq = Seq<(String, AndroidView)>;
/// the sections of a view file
pub open spec fn view_run(ls: Seq<Seq<char>>, la: LaySeq, fa: FabSeq) -> Option<(LaySeq, FabSeq)> decreases ls.len() {
    if ls.len() == 0 { Some((la, fa)) } else {
        let (l, t) = (ls[0], ls.skip(1));
        if l.len() == 0 { view_run(t, la, fa) }
        else if !starts(l, at_sign()) { Some((la, fa)) }
        else {
            match find(l.skip(1), dot()) {
                None => None,
                Some(i) => {
                    let (name, kind) = (string_of(l.skip(1).take(i)), l.skip(1).skip(i + 1));
                    if kind == xml() { match layout_run(t, Seq::empty()) { Some((xs, rest)) => if rest.len() < ls.len() { view_run(rest, lhm_put(la, name, PLayout(vec_of(xs))), fa) } else { None }, None => None } }
                    else if kind == xml_fab() { if t.len() == 0 { None } else { match jread::<AndroidView>(t[0]) { Some(x) => view_run(t.skip(1), la, lhm_put(fa, name, x)), None => None } } }
                    else { view_run(t, la, fa) }
                }
            }
        }
    }
}
pub open spec fn view_made(p: (LaySeq, FabSeq)) -> PView { PView { layouts: lhm_of(p.0), fabs: lhm_of(p.1) } }
pub open spec fn view_read(s: Seq<char>) -> Option<PView> { match view_run(lines(s), Seq::empty(), Seq::empty()) { Some(p) => Some(view_made(p)), None => None } }
pub open spec fn layout_read(s: Seq<char>) -> Option<PLayout> { match layout_run(lines(s), Seq::empty()) { Some(p) => Some(PLayout(vec_of(p.0))), None => None } }
pub open spec fn head(name: Seq<char>, kind: Seq<char>) -> Seq<char> { at_sign() + name + dot() + kind }
pub open spec fn layout_text(l: PLayout) -> Seq<char> { trim_s(unlines(item_texts(l.0@))) }
pub open spec fn lay_text(e: (String, PLayout)) -> Seq<char> { head(e.0@, xml()) + nl() + layout_text(e.1) + nl() + nl() }
pub open spec fn fab_text(e: (String, AndroidView)) -> Seq<char> { head(e.0@, xml_fab()) + nl() + item_text(e.1) + nl() }
pub open spec fn lay_texts(s: LaySeq) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { lay_texts(s.drop_last()) + lay_text(s.last()) } }
pub open spec fn fab_texts(s: FabSeq) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { fab_texts(s.drop_last()) + fab_text(s.last()) } }
pub open spec fn view_text(v: PView) -> Option<Seq<char>> { Some(trim_end_s(lay_texts(v.layouts@) + fab_texts(v.fabs@))) }
pub proof fn layout_config_total(x: crate::parser::view::models::LayoutConfig) ensures x.enc() is Some { reveal(crate::parser::view::models::enc_LayoutConfig); }
pub proof fn view_is_obj(x: AndroidView) ensures x.enc() is Some, x.enc()->0 is Obj { reveal(crate::parser::view::models::enc_AndroidView); layout_config_total(x.layout); }

// ---------------------------------------------------------------- what is written reads back
pub open spec fn sound_name(s: Seq<char>) -> bool { oneline(s) && !s.contains('.') }
pub proof fn head_reads(name: Seq<char>, kind: Seq<char>)
    requires sound_name(name), oneline(kind)
    ensures
        head(name, kind).len() > 0, starts(head(name, kind), at_sign()), oneline(head(name, kind)),
        find(head(name, kind).skip(1), dot()) == Some(name.len() as int), head(name, kind).skip(1).take(name.len() as int) == name, head(name, kind).skip(1).skip(name.len() as int + 1) == kind,
{
    let h = head(name, kind);
    assert(h.take(1) =~= at_sign());
    let r = h.skip(1);
    assert forall|j: int| 0 <= j < name.len() implies r[j] != '.' by { assert(r[j] == name[j]); assert(name.contains(name[j])); }
    assert(r[name.len() as int] == '.');
    find_ch(r, '.', 0, name.len() as int);
    assert(r.take(name.len() as int) =~= name);
    assert(r.skip(name.len() as int + 1) =~= kind);
    assert forall|j: int| 0 <= j < h.len() implies h[j] != '\n' by {
        if 1 <= j <= name.len() { assert(h[j] == name[j - 1]); assert(name.contains(name[j - 1])); }
        if j > name.len() + 1 { assert(h[j] == kind[j - name.len() - 2]); assert(kind.contains(kind[j - name.len() - 2])); }
    }
}
pub proof fn oneline_kinds() ensures oneline(xml()), oneline(xml_fab()), xml() != xml_fab(), !white(xml().last()), !white(xml_fab().last())
{ broadcast use ax_white; assert(xml().len() != xml_fab().len()); assert forall|i: int| 0 <= i < xml().len() implies xml()[i] != '\n' by {} assert forall|i: int| 0 <= i < xml_fab().len() implies xml_fab()[i] != '\n' by {} }
pub open spec fn lay_lines(e: (String, PLayout)) -> Seq<Seq<char>> { seq![head(e.0@, xml())] + (if e.1.0@.len() == 0 { blank() } else { item_texts(e.1.0@) }) + blank() }
pub open spec fn fab_lines(e: (String, AndroidView)) -> Seq<Seq<char>> { seq![head(e.0@, xml_fab())] + seq![item_text(e.1)] }
pub open spec fn lays_lines(s: LaySeq) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { lays_lines(s.drop_last()) + lay_lines(s.last()) } }
pub open spec fn fabs_lines(s: FabSeq) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { fabs_lines(s.drop_last()) + fab_lines(s.last()) } }
pub open spec fn good_lay(e: (String, PLayout)) -> bool { sound_name(e.0@) && forall|i: int| 0 <= i < e.1.0@.len() ==> (#[trigger] e.1.0@[i]).good() }
pub open spec fn good_fab(e: (String, AndroidView)) -> bool { sound_name(e.0@) && e.1.good() }
pub open spec fn good_lays(s: LaySeq) -> bool { forall|i: int| 0 <= i < s.len() ==> good_lay(#[trigger] s[i]) }
pub open spec fn good_fabs(s: FabSeq) -> bool { forall|i: int| 0 <= i < s.len() ==> good_fab(#[trigger] s[i]) }
pub proof fn lay_objs(e: (String, PLayout)) requires good_lay(e) ensures all_objs(e.1.0@), solids(item_texts(e.1.0@)), onelines(item_texts(e.1.0@))
{ assert forall|i: int| 0 <= i < e.1.0@.len() implies is_obj(#[trigger] e.1.0@[i]) by { view_is_obj(e.1.0@[i]); } items_solid(e.1.0@); }
pub proof fn lay_unlines(e: (String, PLayout)) requires good_lay(e) ensures lay_text(e) == unlines(lay_lines(e)), onelines(lay_lines(e))
{
    let its = item_texts(e.1.0@);
    let h = head(e.0@, xml());
    lay_objs(e); trim_lines(its); oneline_kinds(); head_reads(e.0@, xml());
    unlines1(h); unlines1(Seq::empty());
    let mid = if e.1.0@.len() == 0 { blank() } else { its };
    unlines_add(seq![h], mid); unlines_add(seq![h] + mid, blank());
    if e.1.0@.len() == 0 { assert(lay_text(e) =~= unlines(lay_lines(e))); }
    else { join_unlines(its); assert(lay_text(e) =~= unlines(lay_lines(e))); }
    assert forall|i: int| 0 <= i < lay_lines(e).len() implies oneline(#[trigger] lay_lines(e)[i]) by { if i > 0 && e.1.0@.len() > 0 && i < lay_lines(e).len() - 1 { assert(lay_lines(e)[i] == its[i - 1]); } }
}
pub proof fn fab_unlines(e: (String, AndroidView)) requires good_fab(e) ensures fab_text(e) == unlines(fab_lines(e)), onelines(fab_lines(e))
{
    let h = head(e.0@, xml_fab());
    view_is_obj(e.1); obj_text(e.1); oneline_kinds(); head_reads(e.0@, xml_fab());
    unlines1(h); unlines1(item_text(e.1)); unlines_add(seq![h], seq![item_text(e.1)]);
    assert(fab_text(e) =~= unlines(fab_lines(e)));
    assert forall|i: int| 0 <= i < fab_lines(e).len() implies oneline(#[trigger] fab_lines(e)[i]) by { if i == 0 { assert(fab_lines(e)[0] == h); } else { assert(fab_lines(e)[1] == item_text(e.1)); } }
}
pub proof fn lays_unlines(s: LaySeq) requires good_lays(s) ensures lay_texts(s) == unlines(lays_lines(s)), onelines(lays_lines(s)) decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(good_lays(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_lay(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        assert(good_lay(s[s.len() - 1]));
        lays_unlines(d); lay_unlines(s.last()); unlines_add(lays_lines(d), lay_lines(s.last())); onelines_add(lays_lines(d), lay_lines(s.last()));
    }
}
pub proof fn fabs_unlines(s: FabSeq) requires good_fabs(s) ensures fab_texts(s) == unlines(fabs_lines(s)), onelines(fabs_lines(s)) decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(good_fabs(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_fab(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        assert(good_fab(s[s.len() - 1]));
        fabs_unlines(d); fab_unlines(s.last()); unlines_add(fabs_lines(d), fab_lines(s.last())); onelines_add(fabs_lines(d), fab_lines(s.last()));
    }
}
/// the lines of a layout's views, and whatever follows them
pub proof fn layout_runs(xs: Seq<AndroidView>, rest: Seq<Seq<char>>, acc: Seq<AndroidView>) requires all_objs(xs) ensures layout_run(item_texts(xs) + rest, acc) == layout_run(rest, acc + xs) decreases xs.len()
{
    if xs.len() == 0 { assert(item_texts(xs) + rest =~= rest); assert(acc + xs =~= acc); }
    else {
        let ls = item_texts(xs) + rest;
        assert(is_obj(xs[0])); obj_text(xs[0]);
        assert(ls[0] == item_texts(xs)[0]); assert(ls[0] == item_text(xs[0]));
        let t = xs.skip(1);
        assert(all_objs(t)) by { assert forall|i: int| 0 <= i < t.len() implies is_obj(#[trigger] t[i]) by { assert(t[i] == xs[i + 1]); } }
        assert(ls.skip(1) =~= item_texts(t) + rest);
        layout_runs(t, rest, acc.push(xs[0]));
        assert(acc.push(xs[0]) + t =~= acc + xs);
    }
}
pub proof fn lay_runs(e: (String, PLayout), rest: Seq<Seq<char>>, la: LaySeq, fa: FabSeq) requires good_lay(e)
    ensures view_run(lay_lines(e) + rest, la, fa) == view_run(rest, lhm_put(la, e.0, e.1), fa),
        view_run(seq![head(e.0@, xml())] + item_texts(e.1.0@), la, fa) == Some((lhm_put(la, e.0, e.1), fa)),
{
    broadcast use vp_views;
    let xs = e.1.0@;
    let h = head(e.0@, xml());
    lay_objs(e); oneline_kinds(); head_reads(e.0@, xml());
    let ls = lay_lines(e) + rest;
    assert(ls[0] == h);
    assert(Seq::<AndroidView>::empty() + xs =~= xs);
    assert(PLayout(vec_of(xs)) == e.1);
    layout_runs(xs, blank() + rest, Seq::empty());
    assert((blank() + rest)[0] == Seq::<char>::empty());
    assert((blank() + rest).skip(1) =~= rest);
    if xs.len() > 0 {
        assert(ls.skip(1) =~= item_texts(xs) + (blank() + rest));
        assert(layout_run(ls.skip(1), Seq::empty()) == Some((xs, rest)));
    } else {
        let b = blank() + rest;
        assert(ls.skip(1) =~= blank() + b);
        assert(ls.skip(1)[0] == Seq::<char>::empty());
        assert(ls.skip(1).skip(1) =~= b);
        assert(xs =~= Seq::empty());
        assert(layout_run(ls.skip(1), Seq::empty()) == Some((xs, b)));
        assert(view_run(b, lhm_put(la, e.0, e.1), fa) == view_run(rest, lhm_put(la, e.0, e.1), fa));
    }
    let q = seq![h] + item_texts(xs);
    assert(q[0] == h);
    layout_runs(xs, Seq::empty(), Seq::empty());
    assert(q.skip(1) =~= item_texts(xs) + Seq::<Seq<char>>::empty());
    let none = Seq::<Seq<char>>::empty();
    assert(layout_run(q.skip(1), Seq::empty()) == Some((xs, none)));
    assert(q.len() > none.len());
    assert(view_run(q, la, fa) == view_run(none, lhm_put(la, string_of(h.skip(1).take(e.0@.len() as int)), PLayout(vec_of(xs))), fa));
}
pub proof fn fab_runs(e: (String, AndroidView), rest: Seq<Seq<char>>, la: LaySeq, fa: FabSeq) requires good_fab(e)
    ensures view_run(fab_lines(e) + rest, la, fa) == view_run(rest, la, lhm_put(fa, e.0, e.1))
{
    broadcast use vp_views;
    let h = head(e.0@, xml_fab());
    view_is_obj(e.1); obj_text(e.1); oneline_kinds(); head_reads(e.0@, xml_fab());
    let ls = fab_lines(e) + rest;
    assert(ls[0] == h);
    assert(ls.skip(1)[0] == item_text(e.1));
    assert(ls.skip(1).skip(1) =~= rest);
}
pub proof fn lays_run(s: LaySeq, rest: Seq<Seq<char>>, la: LaySeq, fa: FabSeq) requires good_lays(s) ensures view_run(lays_lines(s) + rest, la, fa) == view_run(rest, put_all(la, s), fa) decreases s.len()
{
    if s.len() == 0 { assert(lays_lines(s) + rest =~= rest); }
    else {
        let d = s.drop_last();
        assert(good_lays(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_lay(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        assert(good_lay(s[s.len() - 1]));
        assert(lays_lines(s) + rest =~= lays_lines(d) + (lay_lines(s.last()) + rest));
        lays_run(d, lay_lines(s.last()) + rest, la, fa);
        lay_runs(s.last(), rest, put_all(la, d), fa);
    }
}
pub proof fn fabs_run(s: FabSeq, rest: Seq<Seq<char>>, la: LaySeq, fa: FabSeq) requires good_fabs(s) ensures view_run(fabs_lines(s) + rest, la, fa) == view_run(rest, la, put_all(fa, s)) decreases s.len()
{
    if s.len() == 0 { assert(fabs_lines(s) + rest =~= rest); }
    else {
        let d = s.drop_last();
        assert(good_fabs(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_fab(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        assert(good_fab(s[s.len() - 1]));
        assert(fabs_lines(s) + rest =~= fabs_lines(d) + (fab_lines(s.last()) + rest));
        fabs_run(d, fab_lines(s.last()) + rest, la, fa);
        fab_runs(s.last(), rest, la, put_all(fa, d));
    }
}
pub proof fn trim_nl(s: Seq<char>) ensures trim_end_s(s + nl()) == trim_end_s(s) { broadcast use ax_white; assert((s + nl()).drop_last() =~= s); assert((s + nl()).last() == '\n'); }
pub open spec fn c08_good(v: PView) -> bool { good_lays(v.layouts@) && good_fabs(v.fabs@) }
#[verifier::rlimit(100)] #[verifier::spinoff_prover]
pub proof fn c08_back(v: PView) requires c08_good(v) ensures view_text(v) is Some, view_read(view_text(v)->0) == Some(v)
{
    broadcast use vp_views, vp_maps;
    let (ls, fs) = (v.layouts@, v.fabs@);
    let whole = lay_texts(ls) + fab_texts(fs);
    lays_unlines(ls); fabs_unlines(fs);
    put_all_is(ls); put_all_is(fs);
    let e0 = Seq::<(String, PLayout)>::empty(); let e1 = Seq::<(String, AndroidView)>::empty();
    oneline_kinds();
    let text = view_text(v)->0;
    if fs.len() > 0 {
        let e = fs.last(); let d = fs.drop_last();
        assert(good_fab(fs[fs.len() - 1]));
        assert(good_fabs(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_fab(#[trigger] d[i]) by { assert(d[i] == fs[i]); } }
        fabs_unlines(d); fab_unlines(e);
        view_is_obj(e.1); obj_text(e.1); head_reads(e.0@, xml_fab());
        let front = lays_lines(ls) + fabs_lines(d);
        unlines_add(lays_lines(ls), fabs_lines(d)); onelines_add(lays_lines(ls), fabs_lines(d));
        let b = head(e.0@, xml_fab()) + nl() + item_text(e.1);
        assert(whole =~= (unlines(front) + b) + nl());
        trim_nl(unlines(front) + b);
        assert((unlines(front) + b).last() == item_text(e.1).last());
        assert(text == unlines(front) + b);
        lines_unlines(front, b);
        lines_cons(head(e.0@, xml_fab()), item_text(e.1)); lines_one(item_text(e.1));
        assert(lines(text) =~= (lays_lines(ls) + fabs_lines(fs)) + Seq::<Seq<char>>::empty());
        lays_run(ls, fabs_lines(fs) + Seq::<Seq<char>>::empty(), e0, e1);
        fabs_run(fs, Seq::empty(), ls, e1);
        assert(lines(text) =~= lays_lines(ls) + (fabs_lines(fs) + Seq::<Seq<char>>::empty()));
    } else if ls.len() > 0 {
        let e = ls.last(); let d = ls.drop_last();
        assert(good_lay(ls[ls.len() - 1]));
        assert(good_lays(d)) by { assert forall|i: int| 0 <= i < d.len() implies good_lay(#[trigger] d[i]) by { assert(d[i] == ls[i]); } }
        lays_unlines(d); lay_objs(e); head_reads(e.0@, xml());
        let its = item_texts(e.1.0@);
        let h = head(e.0@, xml());
        trim_lines(its);
        assert(fab_texts(fs) =~= Seq::empty());
        let q = seq![h] + its;
        onelines_add(seq![h], its);
        let b = if its.len() == 0 { h } else { h + nl() + join(its) };
        let solid_part = unlines(lays_lines(d)) + b;
        if its.len() == 0 {
            assert(whole =~= ((solid_part + nl()) + nl()) + nl());
            trim_nl((solid_part + nl()) + nl()); trim_nl(solid_part + nl()); trim_nl(solid_part);
            assert(b.last() == xml().last());
            lines_one(h); assert(q =~= seq![h]);
        } else {
            assert(whole =~= (solid_part + nl()) + nl());
            trim_nl(solid_part + nl()); trim_nl(solid_part);
            join_solid(its);
            assert(b.last() == join(its).last());
            lines_cons(h, join(its)); lines_join(its, Seq::empty());
        }
        assert(solid_part.last() == b.last());
        assert(text == solid_part);
        lines_unlines(lays_lines(d), b);
        assert(lines(text) == lays_lines(d) + q);
        lays_run(d, q, e0, e1);
        lay_runs(e, Seq::empty(), put_all(e0, d), e1);
        assert(fs =~= e1);
    } else {
        assert(whole =~= Seq::empty());
        assert(text =~= Seq::<char>::empty());
        lines_one(text);
        assert(lines(text)[0] == text); assert(lines(text).skip(1) =~= Seq::empty());
        assert(ls =~= e0); assert(fs =~= e1);
        assert(view_run(lines(text).skip(1), e0, e1) == Some((e0, e1)));
        assert(view_run(lines(text), e0, e1) == Some((e0, e1)));
    }
}
