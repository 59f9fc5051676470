pub use crate::parser::logic::event::EventPool;
pub use crate::parser::logic::component::ComponentPool;
pub use crate::parser::logic::more_block::MoreBlockPool;
pub use crate::parser::logic::variable::{VariablePool, Variable};
pub use crate::parser::logic::list_variable::{ListVariablePool, ListVariable};
/// the file name a resource goes by
pub open spec fn own_name(f: ResourceFileWrapper) -> Option<Seq<char>> {
    match f {
        ResourceFileWrapper::Path(p) => match path_last(p) { Some(o) => os_text(o), None => None },
        ResourceFileWrapper::StringId { res_full_name, .. } => Some(res_full_name@),
        ResourceFileWrapper::U32Id { res_full_name, .. } => Some(res_full_name@),
    }
}
/// entries put into a map one after the other
pub open spec fn puts<V>(base: Seq<(String, V)>, ks: Seq<String>, vs: Seq<V>, n: nat) -> Seq<(String, V)> decreases n { if n == 0 { base } else { lhm_put(puts(base, ks, vs, (n - 1) as nat), ks[n - 1], vs[n - 1]) } }
pub proof fn puts_ext<V>(base: Seq<(String, V)>, ks: Seq<String>, vs: Seq<V>, us: Seq<V>, n: nat) requires forall|i: int| 0 <= i < n ==> vs[i] == us[i] ensures puts(base, ks, vs, n) == puts(base, ks, us, n) decreases n { if n > 0 { puts_ext(base, ks, vs, us, (n - 1) as nat); } }
// -- the logic of a screen
/// code can be written
pub open spec fn fits(b: Blocks) -> bool { seq_whole(b.0, b.0@.len()) && 10 + seq_size(b.0, b.0@.len()) <= i32::MAX }
pub open spec fn cont(b: Blocks, c: BlockContainer) -> bool { c.0@ == w_seq(b.0, b.0@.len(), 10) }
pub open spec fn cont_of(b: Blocks) -> BlockContainer { BlockContainer(vec_of(w_seq(b.0, b.0@.len(), 10))) }
pub open spec fn recs_saved(l: Seq<Event>, n: nat) -> Seq<Rec> decreases n { if n == 0 { Seq::empty() } else if l[n - 1].name@ == "onCreate"@ { recs_saved(l, (n - 1) as nat) } else { recs_saved(l, (n - 1) as nat).push(record_of(l[n - 1])) } }
pub open spec fn ev_keys(l: Seq<Event>) -> Seq<String> { Seq::new(l.len(), |i: int| string_of(container_name(l[i]))) }
pub open spec fn ev_conts(l: Seq<Event>) -> Seq<BlockContainer> { Seq::new(l.len(), |i: int| cont_of(l[i].code)) }
pub open spec fn mb_key(id: String) -> String { string_of(id@ + "_moreBlock"@) }
pub open spec fn mb_keys(l: Seq<(String, AMoreBlock)>) -> Seq<String> { Seq::new(l.len(), |i: int| mb_key(l[i].0)) }
pub open spec fn mb_conts(l: Seq<(String, AMoreBlock)>) -> Seq<BlockContainer> { Seq::new(l.len(), |i: int| cont_of(l[i].1.code)) }
pub open spec fn mb_rec(m: AMoreBlock) -> PMoreBlock { PMoreBlock { id: m.name, spec: string_of(content_text(m.spec)) } }
pub open spec fn mb_ids(l: Seq<(String, AMoreBlock)>) -> Seq<String> { Seq::new(l.len(), |i: int| l[i].0) }
pub open spec fn mb_recs(l: Seq<(String, AMoreBlock)>) -> Seq<PMoreBlock> { Seq::new(l.len(), |i: int| mb_rec(l[i].1)) }
/// the record of a component
pub open spec fn comp_rec(k: ComponentKind, id: String, c: Component) -> bool { c.id == id && c.r#type == comp_no(k) && (takes_param(c.r#type) ==> c.param1@ == comp_param(k)) }
pub open spec fn comp_recs(l: Seq<(String, ComponentKind)>, c: Seq<Component>) -> bool { l.len() == c.len() && forall|i: int| 0 <= i < l.len() ==> comp_rec((#[trigger] l[i]).1, l[i].0, c[i]) }
pub open spec fn conts_saved(es: Seq<Event>, ms: Seq<(String, AMoreBlock)>) -> Conts { puts(puts(Seq::empty(), ev_keys(es), ev_conts(es), es.len()), mb_keys(ms), mb_conts(ms), ms.len()) }
pub open spec fn logic_saved(java_name: String, vars: LinkedHashMap<String, Variable>, lists: LinkedHashMap<String, ListVariable>, comps: LinkedHashMap<String, ComponentKind>, mbs: LinkedHashMap<String, AMoreBlock>, events: Vec<Event>, l: ScreenLogic) -> bool {
    &&& l.name == java_name && l.variables == Some(VariablePool(vars)) && l.list_variables == Some(ListVariablePool(lists))
    &&& (l.components matches Some(p) && comp_recs(comps@, p.0@))
    &&& (l.events matches Some(p) && p.0@ == recs_saved(events@, events@.len()))
    &&& (l.more_blocks matches Some(p) && p.0@ == puts(Seq::empty(), mb_ids(mbs@), mb_recs(mbs@), mbs@.len()))
    &&& l.block_containers@ == conts_saved(events@, mbs@)
}
pub open spec fn codes_fit(events: Seq<Event>, mbs: Seq<(String, AMoreBlock)>) -> bool { (forall|i: int| 0 <= i < events.len() ==> fits((#[trigger] events[i]).code)) && (forall|i: int| 0 <= i < mbs.len() ==> fits((#[trigger] mbs[i]).1.code)) }
// -- screens
pub open spec fn logic_of(s: Screen, l: ScreenLogic) -> bool { logic_saved(s.java_name, s.variables, s.list_variables, s.components, s.more_blocks, s.events, l) }
pub open spec fn top() -> String { string_of("root"@) }
pub open spec fn layout_saved(t: Vec<VNode>) -> PLayout { PLayout(vec_of(flat(t, top(), 0))) }
/// a FAB stands outside the layout
pub open spec fn fab_saved(v: VNode) -> AndroidView { AndroidView { parent: None, parent_type: -1i8, ..written(v, top(), 0) } }
pub open spec fn fabs_saved(l: Seq<Screen>, n: nat) -> Seq<(String, AndroidView)> decreases n { if n == 0 { Seq::empty() } else { match l[n - 1].fab { Some(v) => lhm_put(fabs_saved(l, (n - 1) as nat), l[n - 1].layout_name, fab_saved(v)), None => fabs_saved(l, (n - 1) as nat) } } }
pub open spec fn sc_names(l: Seq<Screen>) -> Seq<String> { Seq::new(l.len(), |i: int| l[i].layout_name) }
pub open spec fn javas(l: Seq<Screen>) -> Seq<String> { Seq::new(l.len(), |i: int| l[i].java_name) }
pub open spec fn sc_layouts(l: Seq<Screen>) -> Seq<PLayout> { Seq::new(l.len(), |i: int| layout_saved(l[i].layout)) }
pub open spec fn cv_names(l: Seq<CustomView>) -> Seq<String> { Seq::new(l.len(), |i: int| l[i].res_name) }
pub open spec fn cv_layouts(l: Seq<CustomView>) -> Seq<PLayout> { Seq::new(l.len(), |i: int| layout_saved(l[i].layout)) }
pub open spec fn layouts_saved(s: Seq<Screen>, c: Seq<CustomView>) -> Seq<(String, PLayout)> { puts(puts(Seq::empty(), sc_names(s), sc_layouts(s), s.len()), cv_names(c), cv_layouts(c), c.len()) }
pub open spec fn logics_are(s: Seq<Screen>, ls: Seq<ScreenLogic>, n: int) -> bool { ls.len() == n && forall|i: int| 0 <= i < n ==> logic_of(s[i], #[trigger] ls[i]) }
pub open spec fn file_of(s: Screen, f: FileItem) -> bool {
    f.filename == s.layout_name && f.keyboard_setting == s.keyboard_setting && f.orientation == s.orientation && f.theme == s.theme
        && f.options.toolbar_enabled == s.toolbar_enabled && f.options.fullscreen_enabled == s.fullscreen_enabled && f.options.drawer_enabled == s.drawer_enabled && f.options.fab_enabled == s.fab_enabled
}
pub open spec fn customs_are(c: Seq<CustomView>, f: Seq<FileItem>, n: int) -> bool { f.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] f[i]).filename == c[i].res_name }
pub open spec fn acts_are(c: Seq<Screen>, f: Seq<FileItem>, n: int) -> bool { f.len() == n && forall|i: int| 0 <= i < n ==> file_of(c[i], #[trigger] f[i]) }
// -- resources
pub open spec fn item_of(r: (ResourceId, ResourceFileWrapper), i: ResourceItem) -> bool { i.name == r.0.0 && Some(i.full_name@) == own_name(r.1) }
pub open spec fn items_of(l: Seq<(ResourceId, ResourceFileWrapper)>, r: Seq<ResourceItem>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> item_of(l[i], #[trigger] r[i]) }
pub open spec fn files_saved(l: Seq<(ResourceId, ResourceFileWrapper)>, auto: bool, n: nat) -> Map<String, ResourceFileWrapper> decreases n { if n == 0 || auto { Map::empty() } else { files_saved(l, auto, (n - 1) as nat).insert(string_of(own_name(l[n - 1].1)->0), l[n - 1].1) } }
pub open spec fn all_named(l: Seq<(ResourceId, ResourceFileWrapper)>) -> bool { forall|i: int| 0 <= i < l.len() ==> own_name((#[trigger] l[i]).1) is Some }
// -- the project
pub open spec fn savable(m: Model) -> bool {
    &&& forall|i: int| 0 <= i < m.screens@.len() ==> codes_fit((#[trigger] m.screens@[i]).events@, m.screens@[i].more_blocks@)
    &&& all_named(m.resources.images@) && all_named(m.resources.sounds@) && all_named(m.resources.fonts@)
}
pub open spec fn saves_as(m: Model, p: ParsedProject) -> bool {
    &&& meta_of(p.project) == m.metadata && colors_of(p.project) == m.colors && libs_of(p.library) == m.libraries
    &&& yes_no(p.library.firebase_db) && yes_no(p.library.admob) && yes_no(p.library.google_map)
    &&& acts_are(m.screens@, p.file.activities@, m.screens@.len() as int)
    &&& customs_are(m.custom_views@, p.file.custom_views@, m.custom_views@.len() as int)
    &&& p.view.layouts@ == layouts_saved(m.screens@, m.custom_views@)
    &&& p.view.fabs@ == fabs_saved(m.screens@, m.screens@.len())
    &&& exists|ls: Seq<ScreenLogic>| #[trigger] logics_are(m.screens@, ls, m.screens@.len() as int) && p.logic.screens@ == puts(Seq::empty(), javas(m.screens@), ls, m.screens@.len())
    &&& items_of(m.resources.images@, p.resource.images@, m.resources.images@.len() as int) && items_of(m.resources.sounds@, p.resource.sounds@, m.resources.sounds@.len() as int) && items_of(m.resources.fonts@, p.resource.fonts@, m.resources.fonts@.len() as int)
    &&& (p.resource_files is None <==> m.automatic_res_file_ids)
    &&& p.resource_files matches Some(f) ==> f.custom_icon == m.custom_icon && f.images@ == files_saved(m.resources.images@, false, m.resources.images@.len()) && f.sounds@ == files_saved(m.resources.sounds@, false, m.resources.sounds@.len()) && f.fonts@ == files_saved(m.resources.fonts@, false, m.resources.fonts@.len())
}
