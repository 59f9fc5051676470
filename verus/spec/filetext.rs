pub use crate::parser::file::{File as PFile, FileItem, FileSection, FileType, KeyboardSetting, Orientation, Theme};
pub open spec fn file_section(l: Seq<char>) -> Option<FileSection> { if l == "@activity"@ { Some(FileSection::Activity) } else if l == "@customview"@ { Some(FileSection::CustomView) } else { None } }
pub open spec fn file_add(r: PFile, sec: FileSection, xs: Seq<FileItem>) -> PFile {
    match sec { FileSection::Activity => PFile { activities: vec_of(r.activities@ + xs), ..r }, FileSection::CustomView => PFile { custom_views: vec_of(r.custom_views@ + xs), ..r }, FileSection::None => r }
}
/// reading the rest of the lines while in a section
pub open spec fn file_run(ls: Seq<Seq<char>>, sec: FileSection, a: PFile) -> Option<PFile> decreases ls.len() {
    if ls.len() == 0 { Some(a) } else {
        match file_section(ls[0]) {
            Some(s) => file_run(ls.skip(1), s, a),
            None => if sec == FileSection::None || ls[0].len() == 0 { file_run(ls.skip(1), sec, a) } else { match jread::<FileItem>(ls[0]) { Some(x) => file_run(ls.skip(1), sec, file_add(a, sec, seq![x])), None => None } }
        }
    }
}
pub open spec fn file_empty() -> PFile { PFile { activities: vec_of(seq![]), custom_views: vec_of(seq![]) } }
pub open spec fn file_read(s: Seq<char>) -> Option<PFile> { file_run(lines(s), FileSection::None, file_empty()) }
pub open spec fn file_text(r: PFile) -> Option<Seq<char>> {
    Some("@activity\n"@ + trim_s(prelines(item_texts(r.activities@))) + "\n@customview\n"@ + trim_s(prelines(item_texts(r.custom_views@))))
}
pub proof fn file_item_text(x: FileItem) ensures is_obj(x), x.enc() is Some, solid(item_text(x)), oneline(item_text(x)), item_text(x)[0] == '{', file_section(item_text(x)) is None, jread::<FileItem>(item_text(x)) == Some(x)
{
    broadcast use vp_json, ax_white;
    x.rt(); obj_text(x);
    reveal_strlit("@activity"); reveal_strlit("@customview");
}
pub proof fn file_objs(xs: Seq<FileItem>) ensures all_objs(xs) { assert forall|i: int| 0 <= i < xs.len() implies is_obj(#[trigger] xs[i]) by { file_item_text(xs[i]); } }
/// a section is read item by item
pub proof fn file_run_items(xs: Seq<FileItem>, rest: Seq<Seq<char>>, sec: FileSection, a: PFile)
    requires sec != FileSection::None
    ensures file_run(item_texts(xs) + rest, sec, a) == file_run(rest, sec, file_add(a, sec, xs))
    decreases xs.len()
{
    broadcast use vp_views;
    if xs.len() == 0 { assert(item_texts(xs) + rest =~= rest); assert(a.activities@ + xs =~= a.activities@); assert(a.custom_views@ + xs =~= a.custom_views@); }
    else {
        let ls = item_texts(xs) + rest;
        file_item_text(xs[0]);
        assert(ls[0] == item_text(xs[0]));
        assert(ls.skip(1) =~= item_texts(xs.skip(1)) + rest);
        let b = file_add(a, sec, seq![xs[0]]);
        file_run_items(xs.skip(1), rest, sec, b);
        assert(a.activities@ + seq![xs[0]] + xs.skip(1) =~= a.activities@ + xs);
        assert(a.custom_views@ + seq![xs[0]] + xs.skip(1) =~= a.custom_views@ + xs);
        assert(file_add(b, sec, xs.skip(1)) == file_add(a, sec, xs));
    }
}
/// items followed by other lines
pub proof fn file_run_section(xs: Seq<FileItem>, sec: FileSection, a: PFile)
    requires sec != FileSection::None
    ensures file_run(lines(joined(item_texts(xs))), sec, a) == Some(file_add(a, sec, xs))
{
    broadcast use vp_views;
    file_objs(xs); items_solid(xs);
    let f = item_texts(xs);
    if xs.len() == 0 {
        lines_one(joined(f));
        reveal_strlit("@activity"); reveal_strlit("@customview");
        assert(lines(joined(f)).skip(1) =~= seq![]);
        assert(a.activities@ + xs =~= a.activities@); assert(a.custom_views@ + xs =~= a.custom_views@);
        reveal_with_fuel(file_run, 2);
    } else {
        lines_join(f, seq![]);
        file_run_items(xs, seq![], sec, a);
        assert(f + Seq::<Seq<char>>::empty() =~= f);
    }
}
/// C05: what is written reads back as the same file list
pub proof fn c05_back(r: PFile) ensures file_text(r) is Some, file_read(file_text(r)->0) == Some(r)
{
    broadcast use vp_views;
    reveal_strlit("@activity"); reveal_strlit("@customview"); reveal_strlit("@activity\n"); reveal_strlit("\n@customview\n");
    let (i, s) = (item_texts(r.activities@), item_texts(r.custom_views@));
    file_objs(r.activities@); items_solid(r.activities@); file_objs(r.custom_views@); items_solid(r.custom_views@);
    trim_lines(i); trim_lines(s);
    assert(oneline("@activity"@) && oneline("@customview"@));
    assert("@activity\n"@ =~= "@activity"@ + nl()); assert("\n@customview\n"@ =~= nl() + "@customview"@ + nl());
    let t2 = "@customview"@ + nl() + joined(s);
    let mid = joined(i) + nl() + t2;
    assert(file_text(r)->0 =~= "@activity"@ + nl() + mid);
    lines_cons("@activity"@, mid); lines_cons("@customview"@, joined(s));
    assert("@activity"@[1] == 'a' && "@customview"@[1] == 'c');
    let e = file_empty();
    let r1 = file_add(e, FileSection::Activity, r.activities@);
    assert(seq![] + r.activities@ =~= r.activities@); assert(seq![] + r.custom_views@ =~= r.custom_views@);
    assert(lines(file_text(r)->0).skip(1) =~= lines(mid));
    assert(lines(t2).skip(1) =~= lines(joined(s)));
    file_run_section(r.custom_views@, FileSection::CustomView, r1);
    assert(file_add(r1, FileSection::CustomView, r.custom_views@) == r);
    if i.len() == 0 {
        lines_cons(joined(i), t2);
        assert(r.activities@ =~= seq![]);
        let lm = lines(mid);
        assert(lm.skip(1) =~= lines(t2));
        assert(lm[0] == joined(i));
        assert(file_run(lm, FileSection::Activity, e) == file_run(lines(t2), FileSection::Activity, e));
        assert(r1 == e);
    } else {
        lines_join(i, t2);
        file_run_items(r.activities@, lines(t2), FileSection::Activity, e);
    }
}
