//! C21, C22, C23, C26: screens, whole project models, the resource registry, the naming rule.
use crate::gen::*;
use crate::p_block::{blocks, content};
use crate::p_tree::{flat_list, model_component};
use crate::util::*;
use crate::{ensure, same};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::{TryFrom, TryInto};
use std::path::Path;
use swrs::api::block::*;
use swrs::api::component::ComponentKind;
use swrs::api::library::*;
use swrs::api::screen::*;
use swrs::api::view::{parse_raw_layout, View as AView};
use swrs::api::*;
use swrs::parser::file::File;
use swrs::parser::library::AdUnit;
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::{Event as PEvent, EventPool};
use swrs::parser::logic::more_block::{MoreBlock as PMoreBlock, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool, VariableType};
use swrs::parser::logic::{BlockContainer, Logic, ScreenLogic};
use swrs::parser::view::{Layout, View as PView};
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper, ResourceType, SketchwareProject as Parsed};
use swrs::LinkedHashMap;

pub fn props() -> Vec<(&'static str, fn(&mut Ctx), fn(&mut Ctx), &'static str)> {
    vec![
        ("C21", c21_fixed, c21, "random screen-list entries, layouts and logics with events and more blocks of every kind, with and without their containers, plus containers nobody owns; every piece compared with the piece it comes from."),
        ("C22", c22_fixed, c22, "random project models saved to raw texts, reopened and compared; projects opened without resource files saved and reopened."),
        ("C23", c23_fixed, c23, "random histories of put, get and remove (imaginary files, existing and missing real files) against a map model of the registry."),
        ("C26", c26_fixed, c26, "projects with several screens and logics whose names differ in underscores and case, against an independent naming rule."),
    ]
}
fn d<T: std::fmt::Debug>(x: &T) -> String { format!("{:?}", x) }
fn e<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> { r.map_err(|x| format!("{} failed: {:?}", what, x)) }

/// Sketchware's naming rule, written independently
pub fn java_name(s: &str) -> String {
    let mut out = String::new();
    for part in s.split('_') {
        let mut it = part.chars();
        if let Some(c) = it.next() { out.push(c.to_ascii_uppercase()); out.extend(it); }
    }
    out + "Activity"
}
fn container_of(kind: u8, target: &str, name: &str) -> String {
    if kind == 3 { if name == "onCreate" { "onCreate_initializeLogic".into() } else { format!("{}_{}", name, name) } } else { format!("{}_{}", target, name) }
}

// ---------------------------------------------------------------- C21
struct Piece { entry: swrs::parser::file::FileItem, layout: Layout, logic: ScreenLogic, fab: Option<AView> }
fn piece(r: &mut Rng, n: usize) -> Piece {
    let mut logic = ScreenLogic::new_empty(r.ident());
    let mut used = BTreeSet::new();
    let code = |r: &mut Rng| -> BlockContainer { blocks(r, 2, 3).into() };
    let mut conts: Vec<(String, BlockContainer)> = vec![];
    if r.bool() {
        let mut evs = vec![];
        for _ in 0..r.below(n + 2) {
            let kind = 1 + r.below(3) as u8;
            let ev = PEvent { event_name: if r.chance(1, 4) { r.pick(&["onClick", "initializeLogic", "moreBlock", "onCreate_", "a_b"]).to_string() } else { r.text() }, event_type: kind, target_id: if r.bool() { r.ident() } else { r.text() }, target_type: r.u8() };
            if ev.event_name == "onCreate" { continue }
            let id = container_of(kind, &ev.target_id, &ev.event_name);
            if id == "onCreate_initializeLogic" || !used.insert(id.clone()) { continue }
            if !r.chance(1, 4) { conts.push((id, code(r))) }
            evs.push(ev);
        }
        logic.events = Some(EventPool(evs));
    }
    if r.bool() {
        let mut m = LinkedHashMap::new();
        for _ in 0..r.below(n + 1) {
            let id = if r.bool() { r.ident() } else { r.text() };
            let cid = format!("{}_moreBlock", id);
            if !used.insert(cid.clone()) { continue }
            let spec = content(r, 4).to_string();
            // the entry is known by its key; an entry whose own id differs is still that more block
            m.insert(id.clone(), PMoreBlock { id: if r.chance(1, 6) { r.ident() } else { id.clone() }, spec });
            if !r.chance(1, 4) { conts.push((cid, code(r))) }
        }
        logic.more_blocks = Some(MoreBlockPool(m));
    }
    if r.bool() { conts.push(("onCreate_initializeLogic".into(), code(r))) }
    for _ in 0..r.below(3) { let id = r.ident(); if used.insert(id.clone()) && id != "onCreate_initializeLogic" { conts.push((id, code(r))) } }
    r.shuffle(&mut conts);
    for (k, v) in conts { logic.block_containers.insert(k, v); }
    if r.bool() { logic.variables = Some(variables(r, n)) }
    if r.bool() { logic.list_variables = Some(lists(r, n)) }
    if r.bool() {
        let k = r.below(n + 1);
        let ids = r.idents(k);
        logic.components = Some(ComponentPool(ids.into_iter().map(|id| Component { id, param1: r.text(), param2: r.text(), param3: r.text(), r#type: comp_type(r) }).collect()));
    }
    let layout = Layout(flat_list(r, n * 2, false));
    let fab = if r.bool() { Some(AView::from(android_view(r))) } else { None };
    Piece { entry: file_item(r), layout, logic, fab }
}
fn comp_type(r: &mut Rng) -> u8 { loop { let t = r.below(30) as u8; if model_component(t, "").is_some() { return t } } }
fn comp_param(c: &Component) -> ComponentKind { model_component(c.r#type, &c.param1).unwrap() }
fn c21_check(c: &mut Ctx, p: Piece, lname: String, jname: String) {
    let desc = format!("layout {:?} java {:?} entry {:?} logic {:?} layout of {} views", lname, jname, p.entry, p.logic, p.layout.0.len());
    c.case("screen", &desc, || {
        let l = &p.logic;
        let s = e("from_parsed", Screen::from_parsed(lname.clone(), jname.clone(), p.entry.clone(), p.layout.clone(), l.clone(), p.fab.clone()))?;
        same!("layout name", s.layout_name, lname); same!("java name", s.java_name, jname);
        same!("orientation", s.orientation, p.entry.orientation); same!("theme", s.theme, p.entry.theme); same!("keyboard", s.keyboard_setting, p.entry.keyboard_setting);
        let o = &p.entry.options;
        same!("toolbar", s.toolbar_enabled, o.toolbar_enabled); same!("fullscreen", s.fullscreen_enabled, o.fullscreen_enabled); same!("drawer", s.drawer_enabled, o.drawer_enabled); same!("fab enabled", s.fab_enabled, o.fab_enabled);
        same!("layout", s.layout, e("layout", parse_raw_layout(p.layout.clone()))?);
        same!("fab", s.fab, p.fab);
        same!("variables", s.variables, l.variables.clone().map(|v| v.0).unwrap_or_default());
        same!("lists", s.list_variables, l.list_variables.clone().map(|v| v.0).unwrap_or_default());
        same!("components", s.components.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>(), l.components.iter().flat_map(|c| c.0.iter()).map(|c| (c.id.clone(), comp_param(c))).collect::<Vec<_>>());
        let code = |id: &str| -> Result<Blocks, String> { e("code", Blocks::try_from(l.block_containers.get(id).cloned().unwrap_or(BlockContainer(vec![])))) };
        let mut want: Vec<Event> = vec![];
        if l.block_containers.contains_key("onCreate_initializeLogic") { want.push(Event { name: "onCreate".into(), event_type: EventType::ActivityEvent, code: code("onCreate_initializeLogic")? }) }
        for ev in l.events.iter().flat_map(|e| e.0.iter()) {
            let t = match ev.event_type { 1 => EventType::ViewEvent { id: ev.target_id.clone() }, 2 => EventType::ComponentEvent { id: ev.target_id.clone(), component_type: ev.target_type }, _ => EventType::ActivityEvent };
            want.push(Event { name: ev.event_name.clone(), event_type: t, code: code(&container_of(ev.event_type, &ev.target_id, &ev.event_name))? });
        }
        same!("events", s.events, want);
        let mut mbs: Vec<(String, MoreBlock)> = vec![];
        for (id, mb) in l.more_blocks.iter().flat_map(|m| m.0.iter()) {
            mbs.push((id.clone(), MoreBlock { name: id.clone(), spec: e("spec", BlockContent::parse_wo_params(&mb.spec))?, code: code(&format!("{}_moreBlock", id))? }));
        }
        same!("more blocks", s.more_blocks.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>(), mbs);
        Ok(())
    });
}
fn simple(op: &str) -> BlockContainer {
    Blocks(vec![Block { sub_stack1: None, sub_stack2: None, color: 1u32.into(), op_code: op.into(), content: BlockContent { items: vec![SpecItem::Text(op.into())] }, block_type: BlockType::Regular }]).into()
}
fn c21_fixed(c: &mut Ctx) {
    // every subset of containers of one screen with one event of every kind and one more block
    let ids = ["onCreate_initializeLogic", "button1_onClick", "timer_onTick", "onPause_onPause", "greet_moreBlock", "onCreate_onCreate"];
    for mask in 0..64u32 { for pool in [false, true] {
        let mut l = ScreenLogic::new_empty("MainActivity".into());
        for (i, id) in ids.iter().enumerate() { if mask >> i & 1 == 1 { l.block_containers.insert(id.to_string(), simple(id)); } }
        if pool {
            l.events = Some(EventPool(vec![
                PEvent { event_name: "onClick".into(), event_type: 1, target_id: "button1".into(), target_type: 3 },
                PEvent { event_name: "onTick".into(), event_type: 2, target_id: "timer".into(), target_type: 5 },
                PEvent { event_name: "onPause".into(), event_type: 3, target_id: "onPause".into(), target_type: 0 },
            ]));
            let mut m = LinkedHashMap::new();
            m.insert("greet".to_string(), PMoreBlock { id: "greet".into(), spec: "greet %s.who".into() });
            l.more_blocks = Some(MoreBlockPool(m));
        }
        let mut r = c.rng.clone();
        let p = Piece { entry: file_item(&mut r), layout: Layout(vec![]), logic: l, fab: None };
        c21_check(c, p, "main".into(), "MainActivity".into());
    } }
}
fn c21(c: &mut Ctx) {
    let p = piece(&mut c.rng, c.size);
    let (a, b) = (c.rng.text(), c.rng.text());
    c21_check(c, p, a, b);
}

// ---------------------------------------------------------------- C22
fn tree(r: &mut Rng, n: usize) -> Vec<AView> { parse_raw_layout(Layout(flat_list(r, n, true))).expect("consistent list") }
fn screen(r: &mut Rng, layout_name: String, n: usize) -> Screen {
    let mut used = BTreeSet::new();
    let mut events = vec![];
    if r.bool() { events.push(Event { name: "onCreate".into(), event_type: EventType::ActivityEvent, code: blocks(r, 2, 3) }) }
    for _ in 0..r.below(n + 1) {
        let name = r.name(&[".java_", "\n"]);
        let target = r.name(&[".java_", "\n"]);
        let event_type = match r.below(3) { 0 => EventType::ViewEvent { id: target.clone() }, 1 => EventType::ComponentEvent { id: target.clone(), component_type: r.u8() }, _ => EventType::ActivityEvent };
        let k = match event_type { EventType::ViewEvent { .. } => 1, EventType::ComponentEvent { .. } => 2, _ => 3 };
        let id = container_of(k, &target, &name);
        if name == "onCreate" || id == "onCreate_initializeLogic" || id.contains(".java_") || !used.insert(id) { continue }
        events.push(Event { name, event_type, code: blocks(r, 2, 3) });
    }
    let mut more_blocks = LinkedHashMap::new();
    for _ in 0..r.below(n + 1) {
        let id = r.name(&[".java_", ":", "\n"]);
        let spec = content(r, 4);
        let t = spec.to_string();
        if t.trim() != t || t.contains('\n') || !used.insert(format!("{}_moreBlock", id)) { continue }
        more_blocks.insert(id.clone(), MoreBlock { name: id, spec, code: blocks(r, 2, 3) });
    }
    let k = r.below(n + 1);
    let components = r.idents(k).into_iter().map(|id| { let p = r.text(); (id, model_component(comp_type(r), &p).unwrap()) }).collect();
    let fab = if r.bool() { let mut v = android_view(r); v.parent = None; v.parent_type = -1; Some(AView::from(v)) } else { None };
    Screen {
        java_name: java_name(&layout_name), layout_name, layout: tree(r, n * 2), variables: variables(r, n).0, list_variables: lists(r, n).0, more_blocks, components, events, fab,
        fullscreen_enabled: r.bool(), toolbar_enabled: r.bool(), drawer_enabled: r.bool(), fab_enabled: r.bool(),
        orientation: *r.pick(&ORIENTS), theme: *r.pick(&THEMES), keyboard_setting: *r.pick(&KEYBOARDS),
    }
}
fn real_file(scratch: &Path, dir: &str, name: &str) -> std::path::PathBuf {
    let p = scratch.join(".sketchware").join("resources").join(dir).join("600");
    std::fs::create_dir_all(&p).expect("scratch");
    let f = p.join(name);
    std::fs::write(&f, b"x").expect("scratch");
    f
}
fn model(r: &mut Rng, n: usize, scratch: &Path) -> SketchwareProject {
    let p = project(r);
    let mut javas = BTreeSet::new();
    let k = r.below(n.min(3) + 1);
    let names = r.names(k + r.clone().below(3), &[".", ".java_", "\n"]);
    let (mut screens, mut customs) = (vec![], vec![]);
    for nm in names {
        if screens.len() < k { if javas.insert(java_name(&nm)) { screens.push(screen(r, nm, n)) } } else { customs.push(CustomView { res_name: nm, layout: tree(r, n * 2) }) }
    }
    let libraries = Libraries {
        app_compat_enabled: r.bool(),
        firebase: if r.bool() { Some(Firebase { project_id: r.text(), app_id: r.text(), api_key: r.text(), storage_bucket: r.text() }) } else { None },
        ad_mob: if r.bool() { Some(AdMob { ad_units: vec(r, 3, |r| AdUnit { id: r.text(), name: r.text() }), test_devices: vec(r, 3, |r| r.text()) }) } else { None },
        google_map: if r.bool() { Some(GoogleMap { api_key: r.text() }) } else { None },
    };
    let mut resources = Resources::new_empty();
    let mut seen = BTreeSet::new();
    for _ in 0..r.below(2 * n + 1) {
        let t = *r.pick(&RTYPES);
        let full = if r.bool() { format!("{}.png", r.ident()) } else { r.text() };
        if !seen.insert((d(&t), full.clone())) { continue }
        let w = if r.chance(1, 6) {
            let nm = format!("{}.bin", r.ident());
            if !seen.insert((d(&t), nm.clone())) { continue }
            ResourceFileWrapper::Path(real_file(scratch, match t { ResourceType::Image => "images", ResourceType::Sound => "sounds", _ => "fonts" }, &nm))
        } else { wrapper(r, full, t) };
        let id = ResourceId(r.text());
        if resources.get_resource(&id).is_none() { let _ = resources.put_resource(id, w, t); }
    }
    let mut m = SketchwareProject::new(
        Metadata { local_id: p.id, name: p.app_name, workspace_name: p.workspace_name, package_name: p.package_name, time_created: p.date_created, sketchware_version: p.sketchware_version, version_name: p.version_name, version_code: p.version_code },
        Colors { color_primary: color(r), color_primary_dark: color(r), color_accent: color(r), color_control_normal: color(r), color_control_highlight: color(r) },
        screens, customs, libraries, resources);
    if r.bool() {
        m.custom_icon = Some(if r.chance(1, 4) { ResourceFileWrapper::Path(real_file(scratch, "icons", "icon.png")) } else { let t = r.text(); wrapper(r, t, ResourceType::CustomIcon) });
    }
    m
}
fn same_model(a: &SketchwareProject, b: &SketchwareProject) -> R {
    same!("icon", a.custom_icon, b.custom_icon); same!("metadata", a.metadata, b.metadata); same!("colours", a.colors, b.colors); same!("libraries", a.libraries, b.libraries);
    same!("screen names", a.screens.iter().map(|s| &s.layout_name).collect::<Vec<_>>(), b.screens.iter().map(|s| &s.layout_name).collect::<Vec<_>>());
    for (x, y) in a.screens.iter().zip(&b.screens) {
        same!("java name", x.java_name, y.java_name); same!("layout", x.layout, y.layout); same!("variables", x.variables, y.variables); same!("lists", x.list_variables, y.list_variables);
        same!("more blocks", x.more_blocks, y.more_blocks); same!("components", x.components, y.components); same!("events", x.events, y.events); same!("fab", x.fab, y.fab); same!("screen", x, y);
    }
    same!("custom views", a.custom_views, b.custom_views);
    Ok(())
}
fn c22_model(c: &mut Ctx, m: SketchwareProject) {
    let desc = d(&m);
    c.case("save and reopen", &desc, || {
        let raw: RawSketchwareProject = e("save", m.clone().try_into())?;
        let p = e("parse", Parsed::parse_from(raw))?;
        let back = e("open", SketchwareProject::try_from(p.clone()))?;
        same_model(&back, &m)?;
        same!("resources", back.resources, m.resources);
        same!("model", back, m);
        // and without the texts in between
        let back = e("open", SketchwareProject::try_from(Parsed::from(m.clone())))?;
        same!("model converted directly", back, m);
        Ok(())
    });
    c.case("project without resource files", &desc, || {
        let mut raw: RawSketchwareProject = e("save", m.clone().try_into())?;
        raw.resource_files = None;
        let m0 = e("open", SketchwareProject::try_from(e("parse", Parsed::parse_from(raw.clone()))?))?;
        let raw1: RawSketchwareProject = e("save", m0.clone().try_into())?;
        same!("resource files", raw1.resource_files, None::<Vec<ResourceFileWrapper>>);
        let m1 = e("open", SketchwareProject::try_from(e("parse", Parsed::parse_from(raw1))?))?;
        same_model(&m1, &m0)?;
        let names = |l: &LinkedHashMap<ResourceId, ResourceFileWrapper>| l.iter().map(|(k, v)| (k.0.clone(), v.get_full_name())).collect::<Vec<_>>();
        for (a, b, t) in [(m1.resources.get_images(), m.resources.get_images(), "images"), (m1.resources.get_sounds(), m.resources.get_sounds(), "sounds"), (m1.resources.get_fonts(), m.resources.get_fonts(), "fonts")] {
            same!(t, names(a), names(b));
        }
        Ok(())
    });
}
fn c22_fixed(c: &mut Ctx) {
    for k in 0..6 { let mut r = Rng::new(7, 22, k); let m = model(&mut r, 1, &c.scratch); c22_model(c, m); }
}
fn c22(c: &mut Ctx) {
    let m = model(&mut c.rng, c.size.min(4), &c.scratch);
    c22_model(c, m);
}

// ---------------------------------------------------------------- C23
fn expected(w: &ResourceFileWrapper, t: ResourceType) -> ResourceFileWrapper {
    match w.clone() {
        ResourceFileWrapper::StringId { id, res_full_name, .. } => ResourceFileWrapper::StringId { id, res_full_name, res_type: t },
        ResourceFileWrapper::U32Id { id, res_full_name, .. } => ResourceFileWrapper::U32Id { id, res_full_name, res_type: t },
        p => p
    }
}
#[derive(Clone, Debug)]
enum Op { Put(String, ResourceFileWrapper, ResourceType), Get(String), Remove(String) }
fn history(c: &mut Ctx, ops: Vec<Op>) {
    c.case("history", &d(&ops), || {
        let mut m: Vec<(String, (ResourceFileWrapper, ResourceType))> = vec![];
        let mut res = Resources::new_empty();
        let ids: BTreeSet<String> = ops.iter().map(|o| match o { Op::Put(i, ..) | Op::Get(i) | Op::Remove(i) => i.clone() }).collect();
        for (k, op) in ops.iter().enumerate() {
            let at = |i: &String| m.iter().position(|(j, _)| j == i);
            match op {
                Op::Put(i, w, t) => {
                    let missing = matches!(w, ResourceFileWrapper::Path(p) if !p.exists());
                    let ok = !missing && at(i).is_none();
                    let got = res.put_resource(ResourceId(i.clone()), w.clone(), *t);
                    ensure!(got.is_ok() == ok, "operation {} {:?}: got {:?}, expected {}", k, op, got, if ok { "success" } else { "an error" });
                    if ok { m.push((i.clone(), (expected(w, *t), *t))) }
                }
                Op::Get(_) => {}
                Op::Remove(i) => {
                    let want = at(i).map(|p| m.remove(p).1);
                    same!(format!("operation {} {:?}", k, op), res.remove_resource(&ResourceId(i.clone())), want);
                }
            }
            for i in &ids {
                let want = m.iter().find(|(j, _)| j == i).map(|(_, v)| v.clone());
                same!(format!("resource {:?} after operation {} {:?}", i, k, op), res.get_resource(&ResourceId(i.clone())).map(|(w, t)| (w.clone(), t)), want);
            }
            for (l, t) in [(res.get_images(), ResourceType::Image), (res.get_sounds(), ResourceType::Sound), (res.get_fonts(), ResourceType::Font)] {
                let got: Vec<_> = l.iter().map(|(k, v)| (k.0.clone(), v.clone())).collect();
                let want: Vec<_> = m.iter().filter(|(_, v)| v.1 == t).map(|(k, v)| (k.clone(), v.0.clone())).collect();
                same!(format!("{:?} list after operation {} {:?}", t, k, op), got, want);
            }
        }
        Ok(())
    });
}
fn c23_fixed(c: &mut Ctx) {
    let w = |t| ResourceFileWrapper::StringId { id: "f".into(), res_full_name: "a.png".into(), res_type: t };
    let good = real_file(&c.scratch, "images", "real.png");
    let bad = c.scratch.join("missing.png");
    // every pair of kinds with the same id, every third operation
    for a in RTYPES { for b in RTYPES { for k in 0..4 {
        let third = match k { 0 => Op::Remove("x".into()), 1 => Op::Remove("y".into()), 2 => Op::Put("y".into(), ResourceFileWrapper::Path(good.clone()), b), _ => Op::Put("y".into(), ResourceFileWrapper::Path(bad.clone()), b) };
        history(c, vec![Op::Put("x".into(), w(b), a), Op::Put("x".into(), ResourceFileWrapper::U32Id { id: 3, res_full_name: "b".into(), res_type: ResourceType::CustomIcon }, b), third, Op::Put("x".into(), w(a), b), Op::Remove("x".into())]);
    } } }
}
fn c23(c: &mut Ctx) {
    let good = real_file(&c.scratch, "sounds", "real.bin");
    let bad = c.scratch.join("no").join("file");
    let r = &mut c.rng;
    let mut pool: Vec<String> = (0..3).map(|i| if r.bool() { r.text() } else { format!("id{}", i) }).collect();
    for _ in 0..2 { let s = r.pick(&pool).clone(); let s = r.near(&s); pool.push(s) }
    let n = 2 + r.below(3 * c.size + 2);
    let ops = (0..n).map(|_| {
        let id = r.pick(&pool).clone();
        match r.below(5) {
            0..=2 => {
                let t = *r.pick(&RTYPES);
                let w = match r.below(6) { 0 => ResourceFileWrapper::Path(good.clone()), 1 => ResourceFileWrapper::Path(bad.clone()), _ => { let nm = r.text(); let t2 = *r.pick(&[ResourceType::Image, ResourceType::Sound, ResourceType::Font, ResourceType::CustomIcon]); wrapper(r, nm, t2) } };
                Op::Put(id, w, t)
            }
            3 => Op::Get(id),
            _ => Op::Remove(id)
        }
    }).collect();
    history(c, ops);
}

// ---------------------------------------------------------------- C26
fn open_with(c: &mut Ctx, names: Vec<String>, logics: Vec<String>) {
    let mut r = c.rng.clone();
    c.case("naming", &format!("screens {:?} logics {:?}", names, logics), || {
        let mut p = Parsed { project: project(&mut r), file: File { activities: vec![], custom_views: vec![] }, library: library(&mut r), resource: swrs::parser::resource::Resource { images: vec![], sounds: vec![], fonts: vec![] }, view: PView { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() }, logic: Logic { screens: LinkedHashMap::new() }, resource_files: None };
        for l in [&mut p.library.firebase_db, &mut p.library.compat, &mut p.library.admob, &mut p.library.google_map] { l.use_yn = "N".into() }
        for n in &names { let mut f = file_item(&mut r); f.filename = n.clone(); p.file.activities.push(f) }
        for (i, l) in logics.iter().enumerate() {
            let mut s = ScreenLogic::new_empty(l.clone());
            let mut v = LinkedHashMap::new();
            v.insert(format!("marker{}", i), Variable { name: format!("marker{}", i), r#type: VariableType::String });
            s.variables = Some(VariablePool(v));
            p.logic.screens.insert(l.clone(), s);
        }
        let m = e("open", SketchwareProject::try_from(p))?;
        same!("screens", m.screens.iter().map(|s| s.layout_name.clone()).collect::<Vec<_>>(), names);
        for s in &m.screens {
            let j = java_name(&s.layout_name);
            same!(format!("java name of {:?}", s.layout_name), s.java_name, j);
            let want: Vec<String> = logics.iter().enumerate().filter(|(_, l)| **l == j).map(|(i, _)| format!("marker{}", i)).collect();
            same!(format!("logic of {:?}", s.layout_name), s.variables.keys().cloned().collect::<Vec<_>>(), want);
            ensure!(s.events.is_empty() && s.more_blocks.is_empty() && s.components.is_empty() && s.list_variables.is_empty(), "screen {:?} got logic from nowhere", s.layout_name);
        }
        Ok(())
    });
}
fn distinct(names: Vec<String>) -> Vec<String> { let mut seen = BTreeSet::new(); names.into_iter().filter(|n| seen.insert(java_name(n))).collect() }
fn c26_fixed(c: &mut Ctx) {
    // every name of up to four characters over a small alphabet, alone with its logic and with decoys
    let al = ['_', 'a', 'Z', '1', 'é'];
    let mut all = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..4 { cur = cur.iter().flat_map(|s| al.iter().map(move |c| format!("{}{}", s, c))).collect(); all.extend(cur.clone()); }
    for n in all {
        let j = java_name(&n);
        let mut decoys: BTreeMap<String, ()> = BTreeMap::new();
        for x in [n.clone(), format!("{}Activity", n), j.to_lowercase(), j.to_uppercase(), j.trim_end_matches("Activity").to_string(), format!("{}Activity", n.replace('_', ""))] { decoys.insert(x, ()); }
        open_with(c, vec![n.clone()], decoys.keys().filter(|x| **x != j).cloned().collect());
        decoys.insert(j, ());
        open_with(c, vec![n], decoys.into_keys().collect());
    }
}
fn c26(c: &mut Ctx) {
    let r = &mut c.rng;
    let n = 1 + r.below(c.size + 1);
    let mut names: Vec<String> = (0..n).map(|_| match r.below(3) { 0 => r.text(), 1 => r.ident(), _ => { let a = r.ident(); let b = r.ident(); format!("{}{}{}", a, r.pick(&["_", "__", "", "_é", "-"]), b) } }).collect();
    if r.bool() { let s = r.pick(&names).clone(); let s = r.near(&s); names.push(s) }
    let names = distinct(names);
    let mut logics: Vec<String> = vec![];
    for nm in &names { if r.chance(2, 3) { logics.push(java_name(nm)) } if r.chance(1, 4) { logics.push(format!("{}Activity", nm)) } }
    if r.bool() { logics.push(java_name(&r.clone().ident())) }
    if r.bool() { let s = r.pick(&names).clone(); let s = java_name(&s); logics.push(r.near(&s)) }
    r.shuffle(&mut logics);
    let mut seen = BTreeSet::new();
    let logics = logics.into_iter().filter(|l| seen.insert(l.clone())).collect();
    open_with(c, names, logics);
}
