pub use crate::api::{SketchwareProject as Model, CustomView, Resources, ResourceId, Libraries, Metadata, Colors};
pub use crate::api::library::{Firebase, AdMob, GoogleMap};
pub use crate::parser::SketchwareProject as ParsedProject;
pub use crate::parser::project::Project as PProject;
pub use crate::parser::library::{Library as PLibrary, LibraryItem};
pub use crate::parser::resource::ResourceItem;
pub use crate::parser::{ResourceFileWrapper, ResourceType, ResourceFiles};
/// the parts of a project that screens are taken from
pub struct Rest { pub layouts: Seq<(String, PLayout)>, pub logics: Seq<(String, ScreenLogic)>, pub fabs: Seq<(String, AndroidView)> }
/// the logic of a screen: the one under Sketchware's name for it, or an empty one under that name
pub open spec fn logic_for(logics: Seq<(String, ScreenLogic)>, screen: String) -> ScreenLogic { match lhm_get(logics, string_of(java_name(screen@))) { Some(l) => l, None => empty_logic(string_of(java_name(screen@))) } }
pub open spec fn layout_for(layouts: Seq<(String, PLayout)>, screen: String) -> PLayout { match lhm_get(layouts, screen) { Some(l) => l, None => PLayout(vec_of(Seq::empty())) } }
pub open spec fn fab_for(fabs: Seq<(String, AndroidView)>, screen: String) -> Option<VNode> { match lhm_get(fabs, screen) { Some(v) => Some(node_of(v)), None => None } }
pub open spec fn screen_for(f: FileItem, r: Rest) -> Option<Screen> { screen_of(f.filename, logic_for(r.logics, f.filename).name, f, layout_for(r.layouts, f.filename), logic_for(r.logics, f.filename), fab_for(r.fabs, f.filename)) }
pub open spec fn acts_of(l: Seq<FileItem>, r: Rest, n: nat) -> Option<(Seq<Screen>, Rest)> decreases n {
    if n == 0 { Some((Seq::empty(), r)) } else {
        match acts_of(l, r, (n - 1) as nat) { None => None, Some(p) => match screen_for(l[n - 1], p.1) { None => None, Some(s) => Some((p.0.push(s), used(p.1, l[n - 1].filename))) } }
    }
}
/// what is left when a screen has taken its pieces
pub open spec fn used(r: Rest, name: String) -> Rest { Rest { layouts: lhm_del(r.layouts, name), logics: lhm_del(r.logics, string_of(java_name(name@))), fabs: lhm_del(r.fabs, name) } }
pub proof fn acts_none(l: Seq<FileItem>, r: Rest, i: nat, n: nat) requires i <= n, acts_of(l, r, i) is None ensures acts_of(l, r, n) is None decreases n { if i < n { acts_none(l, r, i, (n - 1) as nat); } }
/// the custom views, each with its own layout
pub open spec fn customs_of(l: Seq<FileItem>, layouts: Seq<(String, PLayout)>, n: nat) -> Option<(Seq<CustomView>, Seq<(String, PLayout)>)> decreases n {
    if n == 0 { Some((Seq::empty(), layouts)) } else {
        match customs_of(l, layouts, (n - 1) as nat) { None => None, Some(p) => match lhm_get(p.1, l[n - 1].filename) { None => None, Some(lay) =>
            match tree_of(lay.0@, lay.0@.len()) { None => None, Some(t) => Some((p.0.push(CustomView { res_name: l[n - 1].filename, layout: vec_of(t) }), lhm_del(p.1, l[n - 1].filename))) } } }
    }
}
pub proof fn customs_none(l: Seq<FileItem>, r: Seq<(String, PLayout)>, i: nat, n: nat) requires i <= n, customs_of(l, r, i) is None ensures customs_of(l, r, n) is None decreases n { if i < n { customs_none(l, r, i, (n - 1) as nat); } }
/// resources by their id: each item takes its file by file name; without files a made-up one with the right file name and kind
#[verifier::opaque]
pub open spec fn conv(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, ids: Seq<u32>, res_type: ResourceType, n: nat) -> Option<(Seq<(ResourceId, ResourceFileWrapper)>, Option<Map<String, ResourceFileWrapper>>)> decreases n {
    if n == 0 { Some((Seq::empty(), files)) } else {
        match conv(l, files, ids, res_type, (n - 1) as nat) { None => None, Some(p) => match p.1 {
            Some(f) => if f.dom().contains(l[n - 1].full_name) { Some((lhm_put(p.0, ResourceId(l[n - 1].name), f[l[n - 1].full_name]), Some(f.remove(l[n - 1].full_name)))) } else { None },
            None => Some((lhm_put(p.0, ResourceId(l[n - 1].name), ResourceFileWrapper::U32Id { id: ids[n - 1], res_full_name: l[n - 1].full_name, res_type }), None)),
        } }
    }
}
pub open spec fn ids_with(files: Option<Map<String, ResourceFileWrapper>>, ids: Seq<u32>, v: ResourceFileWrapper) -> Seq<u32> { if files is None { ids.push(v->U32Id_id) } else { ids } }
pub open spec fn ids_ok(files: Option<Map<String, ResourceFileWrapper>>, ids: Seq<u32>, n: int) -> bool { if files is None { ids.len() == n } else { ids == Seq::<u32>::empty() } }
pub proof fn conv_zero(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, ids: Seq<u32>, t: ResourceType) ensures conv(l, files, ids, t, 0) == Some((Seq::<(ResourceId, ResourceFileWrapper)>::empty(), files)) { reveal(conv); }
pub proof fn conv_none(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, ids: Seq<u32>, t: ResourceType, i: nat, n: nat) requires i <= n, conv(l, files, ids, t, i) is None ensures conv(l, files, ids, t, n) is None decreases n { reveal(conv); if i < n { conv_none(l, files, ids, t, i, (n - 1) as nat); } }
pub proof fn conv_ext(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, a: Seq<u32>, b: Seq<u32>, t: ResourceType, n: nat) requires forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures conv(l, files, a, t, n) == conv(l, files, b, t, n) decreases n { reveal(conv); if n > 0 { conv_ext(l, files, a, b, t, (n - 1) as nat); } }
pub proof fn conv_kind(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, ids: Seq<u32>, t: ResourceType, n: nat) ensures conv(l, files, ids, t, n) matches Some(p) ==> (p.1 is Some <==> files is Some) decreases n { reveal(conv); if n > 0 { conv_kind(l, files, ids, t, (n - 1) as nat); } }
pub proof fn conv_step(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, ids: Seq<u32>, t: ResourceType, n: int, out: Seq<(ResourceId, ResourceFileWrapper)>, cur: Option<Map<String, ResourceFileWrapper>>, v: ResourceFileWrapper)
    requires 0 < n <= l.len(), ids_ok(files, ids, n - 1), conv(l, files, ids, t, (n - 1) as nat) == Some((out, cur)),
        cur matches Some(f) ==> f.dom().contains(l[n - 1].full_name) && v == f[l[n - 1].full_name],
        cur is None ==> (v matches ResourceFileWrapper::U32Id { res_full_name, res_type, .. } && res_full_name == l[n - 1].full_name && res_type == t)
    ensures ids_ok(files, ids_with(files, ids, v), n), conv(l, files, ids_with(files, ids, v), t, n as nat) == Some((lhm_put(out, ResourceId(l[n - 1].name), v), match cur { Some(f) => Some(f.remove(l[n - 1].full_name)), None => None }))
{
    conv_kind(l, files, ids, t, (n - 1) as nat);
    conv_ext(l, files, ids, ids_with(files, ids, v), t, (n - 1) as nat);
    reveal(conv);
}
pub proof fn conv_fail(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, t: ResourceType, n: int, out: Seq<(ResourceId, ResourceFileWrapper)>, f: Map<String, ResourceFileWrapper>)
    requires 0 < n <= l.len(), conv(l, files, Seq::empty(), t, (n - 1) as nat) == Some((out, Some(f))), !f.dom().contains(l[n - 1].full_name)
    ensures conv(l, files, Seq::empty(), t, l.len()) is None
{ reveal(conv); conv_none(l, files, Seq::empty(), t, n as nat, l.len()); }
pub open spec fn res_ok(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, t: ResourceType) -> bool { files is Some ==> conv(l, files, Seq::empty(), t, l.len()) is Some }
pub open spec fn res_is(l: Seq<ResourceItem>, files: Option<Map<String, ResourceFileWrapper>>, t: ResourceType, r: Seq<(ResourceId, ResourceFileWrapper)>) -> bool {
    exists|ids: Seq<u32>| #[trigger] ids_ok(files, ids, l.len() as int) && conv(l, files, ids, t, l.len()) is Some && (conv(l, files, ids, t, l.len())->0).0 == r
}
pub open spec fn yes(i: LibraryItem) -> bool { i.use_yn@ == "Y"@ }
pub open spec fn yes_no(i: LibraryItem) -> bool { i.use_yn@ == "Y"@ || i.use_yn@ == "N"@ }
pub open spec fn libs_of(l: PLibrary) -> Libraries {
    Libraries {
        app_compat_enabled: yes(l.compat),
        firebase: if yes(l.firebase_db) { Some(Firebase { project_id: l.firebase_db.data, app_id: l.firebase_db.reserved1, api_key: l.firebase_db.reserved2, storage_bucket: l.firebase_db.reserved3 }) } else { None },
        ad_mob: if yes(l.admob) { Some(AdMob { ad_units: l.admob.ad_units, test_devices: l.admob.test_devices }) } else { None },
        google_map: if yes(l.google_map) { Some(GoogleMap { api_key: l.google_map.data }) } else { None },
    }
}
pub open spec fn meta_of(p: PProject) -> Metadata { Metadata { local_id: p.id, name: p.app_name, workspace_name: p.workspace_name, package_name: p.package_name, time_created: p.date_created, sketchware_version: p.sketchware_version, version_name: p.version_name, version_code: p.version_code } }
pub open spec fn colors_of(p: PProject) -> Colors { Colors { color_primary: p.color_palette.color_primary, color_primary_dark: p.color_palette.color_primary_dark, color_accent: p.color_palette.color_accent, color_control_normal: p.color_palette.color_control_normal, color_control_highlight: p.color_palette.color_control_highlight } }
pub open spec fn rest_of(p: ParsedProject) -> Rest { Rest { layouts: p.view.layouts@, logics: p.logic.screens@, fabs: p.view.fabs@ } }
pub open spec fn screens_of(p: ParsedProject) -> Option<(Seq<Screen>, Rest)> { acts_of(p.file.activities@, rest_of(p), p.file.activities@.len()) }
pub open spec fn views_of(p: ParsedProject) -> Option<(Seq<CustomView>, Seq<(String, PLayout)>)> { match screens_of(p) { None => None, Some(s) => customs_of(p.file.custom_views@, s.1.layouts, p.file.custom_views@.len()) } }
pub open spec fn files_of(p: ParsedProject, k: int) -> Option<Map<String, ResourceFileWrapper>> { match p.resource_files { None => None, Some(f) => Some(if k == 0 { f.images@ } else if k == 1 { f.sounds@ } else { f.fonts@ }) } }
/// can it be opened
pub open spec fn openable(p: ParsedProject) -> bool {
    &&& views_of(p) is Some
    &&& yes_no(p.library.firebase_db) && yes_no(p.library.admob) && yes_no(p.library.google_map)
    &&& res_ok(p.resource.images@, files_of(p, 0), ResourceType::Image) && res_ok(p.resource.sounds@, files_of(p, 1), ResourceType::Sound) && res_ok(p.resource.fonts@, files_of(p, 2), ResourceType::Font)
}
/// what it opens as
pub open spec fn opens_as(p: ParsedProject, m: Model) -> bool {
    &&& m.screens@ == (screens_of(p)->0).0
    &&& m.custom_views@ == (views_of(p)->0).0
    &&& m.custom_icon == (match p.resource_files { Some(f) => f.custom_icon, None => None })
    &&& m.metadata == meta_of(p.project) && m.colors == colors_of(p.project) && m.libraries == libs_of(p.library)
    &&& res_is(p.resource.images@, files_of(p, 0), ResourceType::Image, m.resources.images@)
    &&& res_is(p.resource.sounds@, files_of(p, 1), ResourceType::Sound, m.resources.sounds@)
    &&& res_is(p.resource.fonts@, files_of(p, 2), ResourceType::Font, m.resources.fonts@)
    &&& m.automatic_res_file_ids == (p.resource_files is None)
}
pub open spec fn jn(f: FileItem) -> String { string_of(java_name(f.filename@)) }
pub open spec fn rest_ok(r: Rest) -> bool { lhm_ok(r.layouts) && lhm_ok(r.logics) && lhm_ok(r.fabs) }
/// screens with names of their own each get what is kept under their own names, as if no other screen had taken anything
pub proof fn acts_own(l: Seq<FileItem>, r: Rest, n: nat)
    requires n <= l.len(), rest_ok(r), acts_of(l, r, n) is Some,
        forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] l[i]).filename != (#[trigger] l[j]).filename && jn(l[i]) != jn(l[j])
    ensures
        rest_ok((acts_of(l, r, n)->0).1), (acts_of(l, r, n)->0).0.len() == n,
        forall|i: int| 0 <= i < n ==> Some(#[trigger] (acts_of(l, r, n)->0).0[i]) == screen_for(l[i], r),
        forall|k: String| (forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).filename != k) ==> #[trigger] lhm_get((acts_of(l, r, n)->0).1.layouts, k) == lhm_get(r.layouts, k),
        forall|k: String| (forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).filename != k) ==> #[trigger] lhm_get((acts_of(l, r, n)->0).1.fabs, k) == lhm_get(r.fabs, k),
        forall|k: String| (forall|i: int| 0 <= i < n ==> jn(#[trigger] l[i]) != k) ==> #[trigger] lhm_get((acts_of(l, r, n)->0).1.logics, k) == lhm_get(r.logics, k),
    decreases n
{
    if n > 0 {
        acts_own(l, r, (n - 1) as nat);
        let p = acts_of(l, r, (n - 1) as nat)->0;
        let f = l[n - 1];
        assert forall|k: String| #[trigger] lhm_get(lhm_del(p.1.layouts, f.filename), k) == (if k == f.filename { None } else { lhm_get(p.1.layouts, k) }) by { lhm_get_del(p.1.layouts, f.filename, k); }
        assert forall|k: String| #[trigger] lhm_get(lhm_del(p.1.fabs, f.filename), k) == (if k == f.filename { None } else { lhm_get(p.1.fabs, k) }) by { lhm_get_del(p.1.fabs, f.filename, k); }
        assert forall|k: String| #[trigger] lhm_get(lhm_del(p.1.logics, jn(f)), k) == (if k == jn(f) { None } else { lhm_get(p.1.logics, k) }) by { lhm_get_del(p.1.logics, jn(f), k); }
        lhm_get_del(p.1.layouts, f.filename, f.filename); lhm_get_del(p.1.fabs, f.filename, f.filename); lhm_get_del(p.1.logics, jn(f), jn(f));
        assert(lhm_get(p.1.layouts, f.filename) == lhm_get(r.layouts, f.filename));
        assert(lhm_get(p.1.fabs, f.filename) == lhm_get(r.fabs, f.filename));
        assert(lhm_get(p.1.logics, jn(f)) == lhm_get(r.logics, jn(f)));
        assert(screen_for(f, p.1) == screen_for(f, r));
    }
}
/// every screen carries the logic kept under Sketchware's name for it (or empty logic under that name), and no other
pub proof fn c26_attached(p: ParsedProject, m: Model)
    requires openable(p), opens_as(p, m),
        forall|i: int, j: int| 0 <= i < j < p.file.activities@.len() ==> (#[trigger] p.file.activities@[i]).filename != (#[trigger] p.file.activities@[j]).filename && jn(p.file.activities@[i]) != jn(p.file.activities@[j])
    ensures
        m.screens@.len() == p.file.activities@.len(),
        forall|i: int| 0 <= i < m.screens@.len() ==> ({
            let f = p.file.activities@[i];
            let logic = match lhm_get(p.logic.screens@, jn(f)) { Some(l) => l, None => empty_logic(jn(f)) };
            Some(#[trigger] m.screens@[i]) == screen_of(f.filename, logic.name, f, layout_for(p.view.layouts@, f.filename), logic, fab_for(p.view.fabs@, f.filename))
        })
{
    ax_lhm_of(p.view.layouts); ax_lhm_of(p.view.fabs); ax_lhm_of(p.logic.screens);
    acts_own(p.file.activities@, rest_of(p), p.file.activities@.len());
    let s = screens_of(p)->0;
    assert forall|i: int| 0 <= i < m.screens@.len() implies ({
            let f = p.file.activities@[i];
            let logic = match lhm_get(p.logic.screens@, jn(f)) { Some(l) => l, None => empty_logic(jn(f)) };
            Some(#[trigger] m.screens@[i]) == screen_of(f.filename, logic.name, f, layout_for(p.view.layouts@, f.filename), logic, fab_for(p.view.fabs@, f.filename))
    }) by { assert(Some(s.0[i]) == screen_for(p.file.activities@[i], rest_of(p))); }
}
