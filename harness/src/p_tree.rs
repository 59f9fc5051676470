//! C12..C14 (view trees), C19 (components), C20 (events), C25 (colours).
use crate::gen::*;
use crate::util::*;
use crate::{ensure, same};
use swrs::api::block::{Block, BlockCategory, BlockContent, BlockType, Blocks, ArgumentBlockReturnType};
use swrs::api::component::ComponentKind;
use swrs::api::screen::{Event, EventType, MoreBlock};
use swrs::api::view::*;
use swrs::color::Color;
use swrs::parser::logic::component::Component;
use swrs::parser::logic::event::Event as PEvent;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::layout::Orientation as LO;
use swrs::parser::view::models::*;
use swrs::parser::view::Layout;

pub fn props() -> Vec<(&'static str, fn(&mut Ctx), fn(&mut Ctx), &'static str)> {
    vec![
        ("C12", c12_fixed, c12, "random flat lists with unique ids (every tree shape of up to 5 views enumerated first), against an independent tree model; missing, unknown and later parents."),
        ("C13", none, c13, "random edited trees with random raw views; every flattened view compared field by field with an independent attribute model."),
        ("C14", c14_fixed, c14, "all 256 type numbers with random attribute values, both directions, against an independent attribute table."),
        ("C19", c19_fixed, c19, "all 256 type numbers and all 21 kinds with random ids and parameters, against a literal table."),
        ("C20", c20_fixed, c20, "all event kinds 0..=255 and random names, ids and target types, against literal naming rules."),
        ("C25", c25_fixed, c25, "all channel values per channel, boundary and random colours, hex strings of every length, all nine categories and random other colours."),
    ]
}
fn none(_: &mut Ctx) {}
fn d<T: std::fmt::Debug>(x: &T) -> String { format!("{:?}", x) }

// ---------------------------------------------------------------- attribute model
pub fn model_kind(v: &AndroidView) -> Option<ViewType> {
    let t = &v.text;
    Some(match v.r#type {
        0 => ViewType::LinearLayout { orientation: v.layout.orientation, gravity: v.layout.gravity },
        2 => ViewType::ScrollView { orientation: LO::Horizontal, gravity: v.layout.gravity },
        12 => ViewType::ScrollView { orientation: LO::Vertical, gravity: v.layout.gravity },
        3 => ViewType::Button { text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, text_style: t.text_type },
        4 => ViewType::TextView { text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, single_line: t.single_line, text_font: t.text_font.clone(), text_style: t.text_type, lines: t.line },
        5 => ViewType::EditText { text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, single_line: t.single_line, text_font: t.text_font.clone(), text_style: t.text_type, lines: t.line, hint: t.hint.clone(), hint_color: t.hint_color, ime_option: t.ime_option, input_type: t.input_type },
        6 => ViewType::ImageView { image_res_name: v.image.res_name.clone()?, image_scale_type: v.image.scale_type },
        7 => ViewType::WebView,
        8 => ViewType::ProgressBar { max_progress: v.max, progress: v.progress, indeterminate: v.indeterminate, progress_style: v.progress_style.clone() },
        9 => ViewType::ListView { divider_height: v.divider_height, custom_view: v.custom_view.clone() },
        10 => ViewType::Spinner { spinner_mode: v.spinner_mode },
        11 => ViewType::CheckBox { checked: v.checked, text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, text_font: t.text_font.clone(), text_style: t.text_type },
        13 => ViewType::Switch { checked: v.checked, text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, text_font: t.text_font.clone(), text_style: t.text_type },
        14 => ViewType::SeekBar { max_progress: v.max, progress: v.progress },
        15 => ViewType::CalendarView { first_day_of_week: v.first_day_of_week },
        16 => ViewType::Fab { image_res_name: v.image.res_name.clone()? },
        17 => ViewType::AdView { adview_size: v.ad_size.clone() },
        18 => ViewType::MapView,
        _ => return None
    })
}
pub fn model_num(t: &ViewType) -> u8 {
    match t {
        ViewType::LinearLayout { .. } => 0,
        ViewType::ScrollView { orientation, .. } => if *orientation == LO::Vertical { 12 } else { 2 },
        ViewType::Button { .. } => 3, ViewType::TextView { .. } => 4, ViewType::EditText { .. } => 5, ViewType::ImageView { .. } => 6, ViewType::WebView => 7,
        ViewType::ProgressBar { .. } => 8, ViewType::ListView { .. } => 9, ViewType::Spinner { .. } => 10, ViewType::CheckBox { .. } => 11, ViewType::Switch { .. } => 13,
        ViewType::SeekBar { .. } => 14, ViewType::CalendarView { .. } => 15, ViewType::Fab { .. } => 16, ViewType::AdView { .. } => 17, ViewType::MapView => 18,
    }
}
pub fn model_apply(t: &ViewType, v: &mut AndroidView) {
    match t.clone() {
        ViewType::LinearLayout { orientation, gravity } => { v.layout.orientation = orientation; v.layout.gravity = gravity }
        ViewType::ScrollView { gravity, .. } => v.layout.gravity = gravity,
        ViewType::Button { text, text_color, text_size, text_style } => { v.text.text = text; v.text.text_color = text_color; v.text.text_size = text_size; v.text.text_type = text_style }
        ViewType::TextView { text, text_color, text_size, single_line, text_font, text_style, lines } => {
            v.text.text = text; v.text.text_color = text_color; v.text.text_size = text_size; v.text.text_type = text_style; v.text.single_line = single_line; v.text.text_font = text_font; v.text.line = lines
        }
        ViewType::EditText { text, text_color, text_size, single_line, text_font, text_style, lines, hint, hint_color, ime_option, input_type } => {
            v.text.text = text; v.text.text_color = text_color; v.text.text_size = text_size; v.text.text_type = text_style; v.text.single_line = single_line; v.text.text_font = text_font; v.text.line = lines;
            v.text.hint = hint; v.text.hint_color = hint_color; v.text.ime_option = ime_option; v.text.input_type = input_type
        }
        ViewType::ImageView { image_res_name, image_scale_type } => { v.image.res_name = Some(image_res_name); v.image.scale_type = image_scale_type }
        ViewType::WebView | ViewType::MapView => {}
        ViewType::ProgressBar { max_progress, progress, indeterminate, progress_style } => { v.max = max_progress; v.progress = progress; v.indeterminate = indeterminate; v.progress_style = progress_style }
        ViewType::ListView { divider_height, custom_view } => { v.divider_height = divider_height; v.custom_view = custom_view }
        ViewType::Spinner { spinner_mode } => v.spinner_mode = spinner_mode,
        ViewType::CheckBox { checked, text, text_color, text_size, text_font, text_style } | ViewType::Switch { checked, text, text_color, text_size, text_font, text_style } => {
            v.checked = checked; v.text.text = text; v.text.text_color = text_color; v.text.text_size = text_size; v.text.text_font = text_font; v.text.text_type = text_style
        }
        ViewType::SeekBar { max_progress, progress } => { v.max = max_progress; v.progress = progress }
        ViewType::CalendarView { first_day_of_week } => v.first_day_of_week = first_day_of_week,
        ViewType::Fab { image_res_name } => v.image.res_name = Some(image_res_name),
        ViewType::AdView { adview_size } => v.ad_size = adview_size,
    }
}
pub fn gen_kind(r: &mut Rng) -> ViewType {
    loop { let mut v = android_view(r); v.r#type = r.below(19) as u8; if let Some(k) = model_kind(&v) {
        // scroll views of every orientation can be built by hand; only two of them exist as type numbers
        return k
    } }
}

// ---------------------------------------------------------------- C12
pub struct Node { pub v: AndroidView, pub kids: Vec<Node> }
fn add(ns: &mut Vec<Node>, parent: &str, v: &AndroidView) -> bool {
    for n in ns { if n.v.id == parent { n.kids.push(Node { v: v.clone(), kids: vec![] }); return true } if add(&mut n.kids, parent, v) { return true } }
    false
}
pub fn model_tree(l: &[AndroidView]) -> Option<Vec<Node>> {
    let mut top: Vec<Node> = vec![];
    for v in l {
        let p = v.parent.clone()?;
        if p == "root" { top.push(Node { v: v.clone(), kids: vec![] }) } else if !add(&mut top, &p, v) { return None }
    }
    Some(top)
}
pub fn same_tree(got: &[View], want: &[Node]) -> R {
    same!("children", got.iter().map(|v| v.id.as_str()).collect::<Vec<_>>(), want.iter().map(|v| v.v.id.as_str()).collect::<Vec<_>>());
    for (g, w) in got.iter().zip(want) {
        let (v, l) = (&w.v, &w.v.layout);
        same!("raw view", g.raw, *v);
        let mk = model_kind(v); same!("kind", g.view.as_ref().ok(), mk.as_ref());
        same!("background", g.background_color, l.background_color); same!("height", g.height, l.height); same!("width", g.width, l.width);
        same!("padding", g.padding, SidesValue { top: l.padding_top, right: l.padding_right, bottom: l.padding_bottom, left: l.padding_left });
        same!("margin", g.margin, SidesValue { top: l.margin_top, right: l.margin_right, bottom: l.margin_bottom, left: l.margin_left });
        same!("weight", (g.weight, g.weight_sum), (l.weight, l.weight_sum)); same!("layout gravity", g.layout_gravity, l.layout_gravity);
        same_tree(&g.children, &w.kids)?;
    }
    Ok(())
}
fn ids(vs: &[View], out: &mut Vec<String>) { for v in vs { out.push(v.id.clone()); ids(&v.children, out) } }
fn c12_list(c: &mut Ctx, l: Vec<AndroidView>, consistent: bool) {
    let short: Vec<String> = l.iter().map(|v| format!("{:?}<-{:?}/{}", v.id, v.parent, v.r#type)).collect();
    let desc = format!("{:?}", short);
    c.case("build", &desc, || {
        let got = parse_raw_layout(Layout(l.clone()));
        let Some(want) = model_tree(&l) else { ensure!(got.is_err(), "a view without a preceding parent was accepted"); return Ok(()) };
        let tree = got.map_err(|x| format!("failed: {:?}", x))?;
        same_tree(&tree, &want)?;
        // searching
        let mut all = vec![]; ids(&tree, &mut all);
        for id in &all {
            let hits: Vec<&View> = tree.iter().filter_map(|v| v.find_id(id)).collect();
            same!("number of views found", hits.len(), 1);
            same!("found", hits[0].raw.id, *id);
            let mut t2 = tree.clone();
            let mut n = 0;
            for v in t2.iter_mut() { if let Some(x) = v.find_id_mut(id) { same!("found (mut)", x.raw.id, *id); x.weight ^= 1; n += 1 } }
            same!("number of views found (mut)", n, 1);
            // only that view changed
            fn diff(a: &[View], b: &[View], out: &mut Vec<String>) { for (x, y) in a.iter().zip(b) { if x.weight != y.weight { out.push(x.id.clone()) } diff(&x.children, &y.children, out) } }
            let mut ch = vec![]; diff(&tree, &t2, &mut ch);
            same!("changed", ch, vec![id.clone()]);
        }
        for v in &tree { ensure!(v.find_id("no such id").is_none() && v.find_id("root").is_none(), "found a view that is not there"); }
        // flattening
        let flat = flatten_views(tree.clone(), None, None);
        let mut a: Vec<&str> = flat.iter().map(|v| v.id.as_str()).collect(); let mut b: Vec<&str> = l.iter().map(|v| v.id.as_str()).collect();
        a.sort(); b.sort();
        same!("flattened ids", a, b);
        for (i, v) in flat.iter().enumerate() {
            let p = v.parent.clone().ok_or("no parent written")?;
            ensure!(p == "root" || flat[..i].iter().any(|x| x.id == p), "{:?} listed before its parent {:?}", v.id, p);
        }
        let again = parse_raw_layout(Layout(flat)).map_err(|x| format!("rebuilding failed: {:?}", x))?;
        if consistent { same!("rebuilt tree", again, tree); }
        else {
            fn shape(v: &[View]) -> String { v.iter().map(|x| { let mut y = x.clone(); y.children = vec![]; y.raw.parent_type = 0; format!("{:?}[{}]", y, shape(&x.children)) }).collect() }
            same!("rebuilt tree", shape(&again), shape(&tree));
        }
        Ok(())
    });
}
fn c12_fixed(c: &mut Ctx) {
    // every forest of up to 5 views, as parent functions
    let mut r = Rng::new(12, 0, 0);
    for n in 0..=5usize {
        let total: usize = (1..=n).product();
        for code in 0..total {
            let (mut x, mut l) = (code, vec![]);
            for i in 0..n {
                let p = x % (i + 1); x /= i + 1;
                let mut v = android_view(&mut r);
                v.id = format!("v{}", i);
                v.parent = Some(if p == 0 { "root".into() } else { format!("v{}", p - 1) });
                l.push(v);
            }
            c12_list(c, l, false);
        }
    }
    let mk = |id: &str, p: Option<&str>| { let mut v = AndroidView::new_empty(id, 0, "root", 0); v.parent = p.map(String::from); v };
    c12_list(c, vec![mk("a", None)], false);
    c12_list(c, vec![mk("a", Some("b")), mk("b", Some("root"))], false);
    c12_list(c, vec![mk("a", Some("a"))], false);
    c12_list(c, vec![mk("a", Some("root")), mk("b", Some("x"))], false);
    c12_list(c, vec![mk("a", Some("root")), mk("b", Some(""))], false);
    // long chains and wide levels
    for n in [50usize, 300] {
        c12_list(c, (0..n).map(|i| mk(&format!("v{}", i), Some(&if i == 0 { "root".to_string() } else { format!("v{}", i - 1) }))).collect(), true);
        c12_list(c, (0..n).map(|i| mk(&format!("v{}", i), Some(if i == 0 { "root" } else { "v0" }))).collect(), true);
    }
}
pub fn flat_list(r: &mut Rng, n: usize, consistent: bool) -> Vec<AndroidView> {
    let k = r.below(n + 1);
    let mut l: Vec<AndroidView> = vec![];
    for id in r.idents(k) {
        let mut v = android_view(r);
        v.id = id;
        let i = l.len();
        let p = if i == 0 || r.chance(1, 4) { None } else if r.bool() { Some(i - 1) } else { Some(r.below(i)) };
        v.parent = Some(p.map(|p| l[p].id.clone()).unwrap_or("root".into()));
        if consistent { v.parent_type = p.map(|p| l[p].r#type as i8).unwrap_or(0); }
        l.push(v);
    }
    l
}
fn c12(c: &mut Ctx) {
    let cons = c.rng.bool();
    let mut l = flat_list(&mut c.rng, c.size * 3, cons);
    if !l.is_empty() && c.rng.chance(1, 8) {
        let i = c.rng.below(l.len());
        match c.rng.below(3) { 0 => l[i].parent = None, 1 => l[i].parent = Some("nowhere".into()), _ => { let j = c.rng.below(l.len()); l.swap(i, j) } }
    }
    c12_list(c, l, false || cons && false);
    let l = flat_list(&mut c.rng, c.size * 3, true);
    c12_list(c, l, true);
}

// ---------------------------------------------------------------- C13
pub fn gen_view(r: &mut Rng, id: &mut Vec<String>, depth: usize) -> View {
    let raw = android_view(r);
    let kind = if r.chance(1, 5) { Err(ViewTypeConversionError::UnknownViewType { view_type: raw.r#type, view_id: raw.id.clone() }) } else { Ok(gen_kind(r)) };
    let mut sides = |r: &mut Rng| SidesValue { top: r.u32(), right: r.u32(), bottom: r.u32(), left: r.u32() };
    let (padding, margin) = (sides(r), sides(r));
    let mut v = View { id: id.pop().unwrap_or_else(|| "x".into()), background_color: color(r), height: size(r), width: size(r), padding, margin, weight: r.u32(), weight_sum: r.u32(), layout_gravity: Gravity(r.u8()), view: kind, children: vec![], raw };
    if depth > 0 { let n = if r.chance(1, 6) { r.below(16) } else { r.below(4) }; for _ in 0..n { if id.is_empty() { break } v.children.push(gen_view(r, id, depth - 1)) } }
    v
}
pub fn model_flat(v: &View, parent: &str, ptype: u8) -> AndroidView {
    let mut w = v.raw.clone();
    w.id = v.id.clone(); w.parent = Some(parent.to_string()); w.parent_type = ptype as i8;
    if let Ok(k) = &v.view { w.r#type = model_num(k); model_apply(k, &mut w) }
    w.layout.height = v.height; w.layout.width = v.width;
    w.layout.padding_top = v.padding.top; w.layout.padding_right = v.padding.right; w.layout.padding_bottom = v.padding.bottom; w.layout.padding_left = v.padding.left;
    w.layout.margin_top = v.margin.top; w.layout.margin_right = v.margin.right; w.layout.margin_bottom = v.margin.bottom; w.layout.margin_left = v.margin.left;
    w.layout.background_color = v.background_color; w.layout.weight = v.weight; w.layout.weight_sum = v.weight_sum; w.layout.layout_gravity = v.layout_gravity;
    w
}
fn expect_all(vs: &[View], parent: &str, ptype: u8, flat: &[AndroidView]) -> R {
    for v in vs {
        let w = model_flat(v, parent, ptype);
        let hits: Vec<&AndroidView> = flat.iter().filter(|x| x.id == v.id).collect();
        same!("times listed", hits.len(), 1);
        same!("flattened view", *hits[0], w);
        expect_all(&v.children, &v.id, w.r#type, flat)?;
    }
    Ok(())
}
fn c13(c: &mut Ctx) {
    let n = c.size * 2;
    let mut names = c.rng.idents(n);
    let mut vs = vec![];
    while !names.is_empty() { vs.push(gen_view(&mut c.rng, &mut names, 3)) }
    c.case("flatten", &d(&vs), || { let flat = flatten_views(vs.clone(), None, None); expect_all(&vs, "root", 0, &flat)?; same!("order of the top level", flat.iter().take(vs.len()).map(|x| x.parent.clone()).collect::<Vec<_>>().len(), vs.len()); Ok(()) });
    let (p, t) = (c.rng.text(), c.rng.u8());
    c.case("flatten below", &format!("{:?} {} {:?}", p, t, vs), || { let flat = flatten_views(vs.clone(), Some(p.clone()), Some(t)); expect_all(&vs, &p, t, &flat) });
}

// ---------------------------------------------------------------- C14
fn c14_type(c: &mut Ctx, v: AndroidView, mut other: AndroidView) {
    c.case("kind", &d(&v), || {
        match (ViewType::from_view(&v), model_kind(&v)) {
            (Ok(a), Some(b)) => {
                same!("kind", a, b);
                same!("type number", a.get_type_id(), v.r#type);
                let mut want = other.clone(); model_apply(&b, &mut want);
                a.clone().apply_values_to_view(&mut other);
                same!("written attributes", other, want);
                other.r#type = a.get_type_id();
                same!("read again", ViewType::from_view(&other), Ok(a));
                Ok(())
            }
            (Err(x), None) => {
                let want = if v.r#type == 6 || v.r#type == 16 { ViewTypeConversionError::ResNameNotPresent { view_id: v.id.clone() } } else { ViewTypeConversionError::UnknownViewType { view_type: v.r#type, view_id: v.id.clone() } };
                same!("error", x, want); Ok(())
            }
            (a, b) => Err(format!("got {:?}, expected {:?}", a, b))
        }
    });
}
fn c14_fixed(c: &mut Ctx) {
    let mut r = Rng::new(14, 0, 0);
    for t in 0..=255u8 { for none in [false, true] {
        let mut v = android_view(&mut r); v.r#type = t; v.image.res_name = if none { None } else { Some("img".into()) };
        let o = android_view(&mut r);
        c14_type(c, v, o);
    } }
}
fn c14(c: &mut Ctx) {
    let mut v = android_view(&mut c.rng); v.r#type = c.rng.below(20) as u8;
    let o = android_view(&mut c.rng);
    c14_type(c, v, o);
    let k = gen_kind(&mut c.rng);
    let o = android_view(&mut c.rng);
    c.case("write kind", &d(&k), || {
        same!("type number", k.get_type_id(), model_num(&k));
        let (mut a, mut b) = (o.clone(), o.clone());
        k.clone().apply_values_to_view(&mut a); model_apply(&k, &mut b);
        same!("attributes", a, b);
        a.r#type = k.get_type_id();
        same!("read again", ViewType::from_view(&a), Ok(k.clone()));
        Ok(())
    });
}

// ---------------------------------------------------------------- C19
pub fn model_component(t: u8, p: &str) -> Option<ComponentKind> {
    use ComponentKind::*;
    let s = p.to_string();
    Some(match t { 1 => Intent, 2 => SharedPreferences { path: s }, 3 => Calendar, 4 => Vibrator, 5 => Timer, 6 => FirebaseDatabase { path: s }, 7 => Dialog, 8 => MediaPlayer, 9 => SoundPool, 10 => ObjectAnimator,
        11 => Gyroscope, 12 => FirebaseAuth, 13 => InterstitialAd, 14 => FirebaseStorage { path: s }, 15 => Camera, 16 => FilePicker { mime_type: s }, 17 => RequestNetwork, 18 => TextToSpeech, 19 => SpeechToText, 20 => BluetoothConnect, 21 => LocationManager, _ => return None })
}
fn c19_one(c: &mut Ctx, t: u8, id: String, p: [String; 3]) {
    c.case("component", &format!("{} {:?} {:?}", t, id, p), || {
        let rec = Component::new(id.clone(), p[0].clone(), p[1].clone(), p[2].clone(), t);
        same!("record", rec, Component { id: id.clone(), param1: p[0].clone(), param2: p[1].clone(), param3: p[2].clone(), r#type: t });
        match (ComponentKind::from_parser_component(&rec), model_component(t, &p[0])) {
            (Ok(a), Some(b)) => {
                same!("kind", a, b);
                let w = a.clone().into_parser_component(id.clone());
                let p1 = if [2, 6, 14, 16].contains(&t) { p[0].clone() } else { String::new() };
                same!("record", w, Component { id: id.clone(), param1: p1, param2: String::new(), param3: String::new(), r#type: t });
                match ComponentKind::from_parser_component(&w) { Ok(x) => same!("read again", x, a), Err(x) => return Err(format!("{:?}", x)) }
                Ok(())
            }
            (Err(x), None) => { same!("error", (x.component_type, x.component_id), (t, id.clone())); Ok(()) }
            (a, b) => Err(format!("got {:?}, expected {:?}", a.map_err(|_| ()), b))
        }
    });
}
fn c19_fixed(c: &mut Ctx) { for t in 0..=255u8 { c19_one(c, t, "cmp".into(), ["p1".into(), "p2".into(), "p3".into()]); c19_one(c, t, "".into(), ["".into(), "".into(), "".into()]); } }
fn c19(c: &mut Ctx) { for t in 0..=22u8 { let id = c.rng.text(); let p = [0; 3].map(|_| c.rng.text()); c19_one(c, t, id, p) } }

// ---------------------------------------------------------------- C20
fn c20_event(c: &mut Ctx, pe: PEvent) {
    c.case("event", &d(&pe), || {
        let r = Event::try_from(pe.clone());
        if !(1..=3).contains(&pe.event_type) {
            let x = match r { Err(x) => x, Ok(x) => return Err(format!("unknown kind accepted: {:?}", x)) };
            same!("error", (x.event_name, x.event_type), (pe.event_name.clone(), pe.event_type));
            return Ok(())
        }
        let ev = r.map_err(|x| format!("{:?}", x))?;
        same!("name", ev.name, pe.event_name);
        same!("code", ev.code, Blocks(vec![]));
        let want = match pe.event_type { 1 => EventType::ViewEvent { id: pe.target_id.clone() }, 2 => EventType::ComponentEvent { id: pe.target_id.clone(), component_type: pe.target_type }, _ => EventType::ActivityEvent };
        same!("kind", ev.event_type, want);
        let cont = match pe.event_type { 1 | 2 => format!("{}_{}", pe.target_id, pe.event_name), _ if pe.event_name == "onCreate" => "onCreate_initializeLogic".to_string(), _ => format!("{}_{}", pe.event_name, pe.event_name) };
        same!("container", ev.get_block_container_id(), cont);
        let (back, code) = ev.into_parser_event();
        same!("code", code, Blocks(vec![]));
        same!("event name", back.event_name, pe.event_name); same!("event kind", back.event_type, pe.event_type);
        same!("target", back.target_id, if pe.event_type == 3 { pe.event_name.clone() } else { pe.target_id.clone() });
        if pe.event_type == 2 { same!("target type", back.target_type, pe.target_type) }
        Ok(())
    });
}
fn c20_fixed(c: &mut Ctx) {
    for t in 0..=255u8 { for name in ["onCreate", "onClick", "initialize", "oncreate", "onCreate_initializeLogic", ""] { c20_event(c, PEvent { event_name: name.into(), event_type: t, target_id: "button1".into(), target_type: t.wrapping_mul(3) }) } }
    for t in 0..=255u8 { c20_event(c, PEvent { event_name: "e".into(), event_type: 2, target_id: "x".into(), target_type: t }) }
}
fn c20(c: &mut Ctx) {
    let mut pe = pevent(&mut c.rng);
    if c.rng.chance(3, 4) { pe.event_type = 1 + c.rng.below(3) as u8 }
    c20_event(c, pe.clone());
    // an event carrying code keeps it
    let code = crate::p_block::blocks(&mut c.rng, 2, 3);
    let ev = Event { name: pe.event_name.clone(), event_type: match c.rng.below(3) { 0 => EventType::ViewEvent { id: pe.target_id.clone() }, 1 => EventType::ComponentEvent { id: pe.target_id.clone(), component_type: pe.target_type }, _ => EventType::ActivityEvent }, code: code.clone() };
    c.case("event with code", &d(&ev), || {
        let (p, b) = ev.clone().into_parser_event();
        same!("code", b, code);
        let mut again = Event::try_from(p).map_err(|x| format!("{:?}", x))?;
        again.code = b;
        same!("event", again, ev);
        Ok(())
    });
    let spec = crate::p_block::content(&mut c.rng, 3);
    let mb = MoreBlock { name: c.rng.text(), spec, code: code.clone() };
    c.case("more block", &d(&mb), || {
        let (p, b) = mb.clone().into_parser_more_block();
        same!("code", b, code); same!("id", p.id, mb.name); same!("spec", p.spec, mb.spec.to_string());
        Ok(())
    });
}

// ---------------------------------------------------------------- C25
const CATS: [(BlockCategory, u32); 9] = [(BlockCategory::Variable, 0xee7d16), (BlockCategory::List, 0xcc5b22), (BlockCategory::Control, 0xe1a92a), (BlockCategory::Operator, 0x5cb722), (BlockCategory::Math, 0x23b9a9),
    (BlockCategory::File, 0xa1887f), (BlockCategory::ViewFunc, 0x4a6cd4), (BlockCategory::ComponentFunc, 0xfca5e2), (BlockCategory::MoreBlock, 0x8a55d7)];
fn c25_value(c: &mut Ctx, v: u32) {
    c.case("colour", &format!("{:#010x}", v), || {
        let [a, r, g, b] = v.to_be_bytes();
        let col = Color::from_argb(a, r, g, b);
        same!("channels", (col.alpha(), col.red(), col.green(), col.blue()), (a, r, g, b));
        same!("rgb", col.rgb(), (r, g, b));
        same!("from value", Color::from(v), col);
        let o = Color::from_rgb(r, g, b);
        same!("opaque", (o.alpha(), o.rgb()), (255, (r, g, b)));
        let hex = "0123456789abcdef".as_bytes();
        let s8: String = (0..8).map(|i| hex[(v >> (28 - 4 * i)) as usize & 15] as char).collect();
        same!("printed", col.to_string(), format!("0x{}", s8));
        same!("debug", format!("{:?}", col), format!("0x{}", s8));
        for s in [s8.clone(), s8.to_uppercase()] {
            same!("8 digits", Color::parse_hex(&s).map_err(|x| x.to_string())?, col);
            same!("6 digits", Color::parse_hex(&s[2..]).map_err(|x| x.to_string())?, o);
        }
        let want = CATS.iter().find(|x| x.1 == v & 0xffffff).map(|x| x.0);
        same!("category", BlockCategory::try_from(col).ok(), want);
        let mut blk = Block::new(BlockCategory::Math, "x".into(), BlockContent { items: vec![] }, BlockType::Regular);
        blk.color = col;
        same!("block category", blk.category().ok(), want);
        Ok(())
    });
}
fn c25_fixed(c: &mut Ctx) {
    for n in 0..=255u32 { for sh in [0, 8, 16, 24] { c25_value(c, n << sh); c25_value(c, !(n << sh)); c25_value(c, 0x12345678 ^ (n << sh)) } }
    for (k, v) in CATS {
        for a in [0u32, 0xff, 0x80] { c25_value(c, v | a << 24) }
        for b in 0..24 { c25_value(c, v ^ 1 << b) }
        c.case("category colour", &format!("{:?}", k), || {
            let col: Color = k.into();
            same!("colour", col, Color::from(0xff000000 | v));
            for b in [Block::new(k, "op".into(), BlockContent { items: vec![] }, BlockType::Argument(ArgumentBlockReturnType::Boolean)), Block::new_1substack(k, "op".into(), BlockContent { items: vec![] }, Blocks(vec![])), Block::new_2substack(k, "op".into(), BlockContent { items: vec![] }, Blocks(vec![]), Blocks(vec![]))] {
                same!("block colour", b.color, col);
                same!("block category", b.category().ok(), Some(k));
            }
            Ok(())
        });
    }
    for s in ["", "f", "gg0000", "00000g", "#ff0000", "ffffffff0", "-1", "      ", "0x1234", "é", "ééé", "+", "１２３４５６"] {
        c.case("malformed hex", s, || {
            let hexd = !s.is_empty() && s.chars().all(|x| x.is_ascii_hexdigit());
            if !hexd || s.len() > 8 { ensure!(Color::parse_hex(s).is_err(), "accepted") } else { let _ = Color::parse_hex(s); }
            Ok(())
        });
    }
}
fn c25(c: &mut Ctx) {
    for _ in 0..30 { let v = c.rng.next() as u32; c25_value(c, v) }
    let s = c.rng.text();
    c.case("any hex text", &s, || { let _ = Color::parse_hex(&s); Ok(()) });
}
