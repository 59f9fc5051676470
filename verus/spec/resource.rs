pub use crate::parser::resource::{Resource as PResource, ResourceItem, ResourceSection};
pub open spec fn res_sec_add(r: PResource, sec: ResourceSection, x: ResourceItem) -> PResource {
    match sec { ResourceSection::Images => PResource { images: vec_of(r.images@.push(x)), ..r }, ResourceSection::Sounds => PResource { sounds: vec_of(r.sounds@.push(x)), ..r }, ResourceSection::Fonts => PResource { fonts: vec_of(r.fonts@.push(x)), ..r }, ResourceSection::None => r }
}
pub open spec fn res_section(l: Seq<char>) -> Option<ResourceSection> { if l == "@images"@ { Some(ResourceSection::Images) } else if l == "@sounds"@ { Some(ResourceSection::Sounds) } else if l == "@fonts"@ { Some(ResourceSection::Fonts) } else { None } }
/// reading the rest of the lines while in a section
pub open spec fn res_run(ls: Seq<Seq<char>>, sec: ResourceSection, a: PResource) -> Option<PResource> decreases ls.len() {
    if ls.len() == 0 { Some(a) } else {
        match res_section(ls[0]) {
            Some(s) => res_run(ls.skip(1), s, a),
            None => if sec == ResourceSection::None { res_run(ls.skip(1), sec, a) } else if ls[0].len() == 0 { Some(a) } else { match jread::<ResourceItem>(ls[0]) { Some(x) => res_run(ls.skip(1), sec, res_sec_add(a, sec, x)), None => None } }
        }
    }
}
pub open spec fn res_empty() -> PResource { PResource { images: vec_of(seq![]), sounds: vec_of(seq![]), fonts: vec_of(seq![]) } }
pub open spec fn resource_read(s: Seq<char>) -> Option<PResource> { res_run(lines(s), ResourceSection::None, res_empty()) }
pub open spec fn resource_text(r: PResource) -> Option<Seq<char>> {
    Some("@images\n"@ + unlines(item_texts(r.images@)) + "@sounds\n"@ + unlines(item_texts(r.sounds@)) + "@fonts\n"@ + trim_s(unlines(item_texts(r.fonts@))))
}
pub open spec fn res_add_all(a: PResource, sec: ResourceSection, xs: Seq<ResourceItem>) -> PResource {
    match sec { ResourceSection::Images => PResource { images: vec_of(a.images@ + xs), ..a }, ResourceSection::Sounds => PResource { sounds: vec_of(a.sounds@ + xs), ..a }, ResourceSection::Fonts => PResource { fonts: vec_of(a.fonts@ + xs), ..a }, ResourceSection::None => a }
}
pub proof fn res_item_text(x: ResourceItem) ensures is_obj(x), x.enc() is Some, solid(item_text(x)), oneline(item_text(x)), item_text(x)[0] == '{', res_section(item_text(x)) is None, jread::<ResourceItem>(item_text(x)) == Some(x)
{
    broadcast use vp_json, ax_white;
    x.rt(); obj_text(x);
    reveal_strlit("@images"); reveal_strlit("@sounds"); reveal_strlit("@fonts");
}
pub proof fn res_objs(xs: Seq<ResourceItem>) ensures all_objs(xs) { assert forall|i: int| 0 <= i < xs.len() implies is_obj(#[trigger] xs[i]) by { res_item_text(xs[i]); } }
/// a section is read item by item
pub proof fn res_run_items(xs: Seq<ResourceItem>, rest: Seq<Seq<char>>, sec: ResourceSection, a: PResource)
    requires sec != ResourceSection::None
    ensures res_run(item_texts(xs) + rest, sec, a) == res_run(rest, sec, res_add_all(a, sec, xs))
    decreases xs.len()
{
    broadcast use vp_views;
    if xs.len() == 0 { assert(item_texts(xs) + rest =~= rest); }
    else {
        let ls = item_texts(xs) + rest;
        res_item_text(xs[0]);
        assert(ls[0] == item_text(xs[0]));
        assert(ls.skip(1) =~= item_texts(xs.skip(1)) + rest);
        let b = res_sec_add(a, sec, xs[0]);
        res_run_items(xs.skip(1), rest, sec, b);
        assert(a.images@.push(xs[0]) + xs.skip(1) =~= a.images@ + xs);
        assert(a.sounds@.push(xs[0]) + xs.skip(1) =~= a.sounds@ + xs);
        assert(a.fonts@.push(xs[0]) + xs.skip(1) =~= a.fonts@ + xs);
        assert(res_add_all(b, sec, xs.skip(1)) == res_add_all(a, sec, xs));
    }
}
/// C07: what is written reads back as the same resource list
pub proof fn c07_back(r: PResource) ensures resource_text(r) is Some, resource_read(resource_text(r)->0) == Some(r)
{
    broadcast use vp_views;
    reveal_strlit("@images"); reveal_strlit("@sounds"); reveal_strlit("@fonts"); reveal_strlit("@images\n"); reveal_strlit("@sounds\n"); reveal_strlit("@fonts\n");
    let (i, s, f) = (item_texts(r.images@), item_texts(r.sounds@), item_texts(r.fonts@));
    res_objs(r.images@); items_solid(r.images@); res_objs(r.sounds@); items_solid(r.sounds@); res_objs(r.fonts@); items_solid(r.fonts@);
    trim_lines(f);
    assert(oneline("@images"@) && oneline("@sounds"@) && oneline("@fonts"@));
    assert("@images\n"@ =~= "@images"@ + nl()); assert("@sounds\n"@ =~= "@sounds"@ + nl()); assert("@fonts\n"@ =~= "@fonts"@ + nl());
    let tf = joined(f);
    let t3 = "@fonts"@ + nl() + tf;
    let t2 = "@sounds"@ + nl() + (unlines(s) + t3);
    let t1 = "@images"@ + nl() + (unlines(i) + t2);
    assert(resource_text(r)->0 =~= t1);
    lines_cons("@images"@, unlines(i) + t2); lines_unlines(i, t2);
    lines_cons("@sounds"@, unlines(s) + t3); lines_unlines(s, t3);
    lines_cons("@fonts"@, tf);
    let e = res_empty();
    let r1 = res_add_all(e, ResourceSection::Images, r.images@);
    let r2 = res_add_all(r1, ResourceSection::Sounds, r.sounds@);
    let r3 = res_add_all(r2, ResourceSection::Fonts, r.fonts@);
    assert(seq![] + r.images@ =~= r.images@); assert(seq![] + r.sounds@ =~= r.sounds@); assert(seq![] + r.fonts@ =~= r.fonts@);
    assert(r3 == r);
    let l3 = lines(t3); let l2 = lines(t2); let l1 = lines(t1);
    assert(l1.skip(1) =~= i + l2); assert(l2.skip(1) =~= s + l3); assert(l3.skip(1) =~= lines(tf));
    assert(l1[0] == "@images"@ && l2[0] == "@sounds"@ && l3[0] == "@fonts"@);
    assert("@sounds"@[1] == 's' && "@images"@[1] == 'i' && "@fonts"@[1] == 'f');
    assert("@sounds"@ != "@images"@ && "@fonts"@ != "@images"@ && "@fonts"@ != "@sounds"@);
    res_run_items(r.images@, l2, ResourceSection::Images, e);
    res_run_items(r.sounds@, l3, ResourceSection::Sounds, r1);
    if f.len() == 0 {
        assert(r.fonts@ =~= seq![]);
        lines_one(tf);
        assert(res_section(tf) is None);
        assert(res_run(lines(tf), ResourceSection::Fonts, r2) == Some(r2));
        assert(r2 == r);
    } else {
        lines_join(f, seq![]);
        res_run_items(r.fonts@, seq![], ResourceSection::Fonts, r2);
        assert(f + Seq::<Seq<char>>::empty() =~= f);
    }
}
