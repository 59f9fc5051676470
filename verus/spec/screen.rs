pub use crate::api::screen::{Screen, MoreBlock as AMoreBlock};
pub use crate::parser::logic::ScreenLogic;
pub use crate::parser::logic::more_block::MoreBlock as PMoreBlock;
pub use crate::parser::view::Layout as PLayout;
pub use crate::parser::file::FileItem;
pub type Conts = Seq<(String, BlockContainer)>;
/// the code kept under a name: that container's blocks, or none if there is no such container
pub open spec fn code_of(bc: Conts, name: Seq<char>) -> Option<Blocks> { blocks_of(match lhm_get(bc, string_of(name)) { Some(c) => c.0@, None => Seq::empty() }) }
/// more blocks in order; every container is used once
pub open spec fn mbs_of(l: Seq<(String, PMoreBlock)>, bc: Conts, n: nat) -> Option<(Seq<(String, AMoreBlock)>, Conts)> decreases n {
    if n == 0 { Some((Seq::empty(), bc)) } else {
        match mbs_of(l, bc, (n - 1) as nat) { None => None, Some(p) => {
            let id = l[n - 1].0; let cn = id@ + "_moreBlock"@;
            match content_of(l[n - 1].1.spec@) { None => None, Some(spec) => match code_of(p.1, cn) { None => None, Some(code) =>
                Some((lhm_put(p.0, id, AMoreBlock { name: id, spec, code }), lhm_del(p.1, string_of(cn)))) } }
        } }
    }
}
/// components by their id
pub open spec fn comps_of(l: Seq<Component>, n: nat) -> Option<Seq<(String, ComponentKind)>> decreases n {
    if n == 0 { Some(Seq::empty()) } else { match comps_of(l, (n - 1) as nat) { None => None, Some(p) => match comp_of(l[n - 1]) { None => None, Some(k) => Some(lhm_put(p, l[n - 1].id, k)) } } }
}
/// events in order
pub open spec fn event_of(e: Rec, code: Blocks) -> Event { Event { name: e.event_name, event_type: kind_of(e)->0, code } }
pub open spec fn evs_of(l: Seq<Rec>, bc: Conts, n: nat) -> Option<(Seq<Event>, Conts)> decreases n {
    if n == 0 { Some((Seq::empty(), bc)) } else {
        match evs_of(l, bc, (n - 1) as nat) { None => None, Some(p) =>
            if kind_of(l[n - 1]) is None { None } else {
                let cn = container_name(event_of(l[n - 1], no_code()));
                match code_of(p.1, cn) { None => None, Some(code) => Some((p.0.push(event_of(l[n - 1], code)), lhm_del(p.1, string_of(cn)))) }
            }
        }
    }
}
pub open spec fn no_code() -> Blocks { Blocks(vec_of(Seq::empty())) }
pub open spec fn oncreate() -> Rec { Rec { event_name: string_of("onCreate"@), event_type: 3, target_id: string_of("onCreate"@), target_type: 0 } }
pub open spec fn oncreate_cont() -> Seq<char> { "onCreate_initializeLogic"@ }
/// the event list, with onCreate first exactly when its container is there
pub open spec fn event_recs(l: ScreenLogic) -> Seq<Rec> {
    let own = match l.events { Some(p) => p.0@, None => Seq::empty() };
    if lhm_get(l.block_containers@, string_of(oncreate_cont())) is Some { seq![oncreate()] + own } else { own }
}
/// a screen put together from its pieces
pub open spec fn screen_of(layout_name: String, logic_name: String, f: FileItem, v: PLayout, l: ScreenLogic, fab: Option<VNode>) -> Option<Screen> {
    let mb = match l.more_blocks { Some(p) => p.0@, None => Seq::empty() };
    let cs = match l.components { Some(p) => p.0@, None => Seq::empty() };
    let es = event_recs(l);
    match tree_of(v.0@, v.0@.len()) { None => None, Some(layout) =>
    match mbs_of(mb, l.block_containers@, mb.len()) { None => None, Some(m) =>
    match comps_of(cs, cs.len()) { None => None, Some(c) =>
    match evs_of(es, m.1, es.len()) { None => None, Some(e) => Some(Screen {
        layout_name, java_name: logic_name, layout: vec_of(layout),
        variables: match l.variables { Some(p) => p.0, None => lhm_of(Seq::empty()) },
        list_variables: match l.list_variables { Some(p) => p.0, None => lhm_of(Seq::empty()) },
        more_blocks: lhm_of(m.0), components: lhm_of(c), events: vec_of(e.0), fab,
        fullscreen_enabled: f.options.fullscreen_enabled, toolbar_enabled: f.options.toolbar_enabled, drawer_enabled: f.options.drawer_enabled, fab_enabled: f.options.fab_enabled,
        orientation: f.orientation, theme: f.theme, keyboard_setting: f.keyboard_setting,
    }) } } } }
}
pub proof fn mbs_none(l: Seq<(String, PMoreBlock)>, bc: Conts, i: nat, n: nat) requires i <= n, mbs_of(l, bc, i) is None ensures mbs_of(l, bc, n) is None decreases n { if i < n { mbs_none(l, bc, i, (n - 1) as nat); } }
pub proof fn comps_none(l: Seq<Component>, i: nat, n: nat) requires i <= n, comps_of(l, i) is None ensures comps_of(l, n) is None decreases n { if i < n { comps_none(l, i, (n - 1) as nat); } }
pub proof fn evs_none(l: Seq<Rec>, bc: Conts, i: nat, n: nat) requires i <= n, evs_of(l, bc, i) is None ensures evs_of(l, bc, n) is None decreases n { if i < n { evs_none(l, bc, i, (n - 1) as nat); } }
