//! Generators of parser level values (the flat file model).
use crate::util::Rng;
use swrs::LinkedHashMap;
use swrs::color::Color;
use swrs::parser::file::*;
use swrs::parser::library::*;
use swrs::parser::logic::{Block as PBlock, BlockContainer, Logic, ScreenLogic};
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::{Event as PEvent, EventPool};
use swrs::parser::logic::list_variable::{ListVariable, ListVariablePool};
use swrs::parser::logic::more_block::{MoreBlock as PMoreBlock, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool, VariableType};
use swrs::parser::project::*;
use swrs::parser::resource::*;
use swrs::parser::view::models::image::ImageScaleType;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::layout::{Orientation as LOrient, Size};
use swrs::parser::view::models::text::{ImeOption, InputType, TextType};
use swrs::parser::view::models::*;
use swrs::parser::view::{Layout, View};
use swrs::parser::{ResourceFileWrapper, ResourceFiles, ResourceType};

pub const FILE_TYPES: [FileType; 3] = [FileType::Activity, FileType::CustomView, FileType::Drawer];
pub const KEYBOARDS: [KeyboardSetting; 3] = [KeyboardSetting::Unspecified, KeyboardSetting::Visible, KeyboardSetting::Hidden];
pub const ORIENTS: [Orientation; 3] = [Orientation::Portrait, Orientation::Landscape, Orientation::Both];
pub const THEMES: [Theme; 4] = [Theme::None, Theme::Default, Theme::Actionbar, Theme::Fullscreen];
pub const VTYPES: [VariableType; 4] = [VariableType::Boolean, VariableType::Integer, VariableType::String, VariableType::HashMap];
pub const TEXT_TYPES: [TextType; 4] = [TextType::Normal, TextType::Bold, TextType::Italic, TextType::BoldItalic];
pub const IMES: [ImeOption; 7] = [ImeOption::Normal, ImeOption::None, ImeOption::Go, ImeOption::Search, ImeOption::Send, ImeOption::Next, ImeOption::Done];
pub const INPUTS: [InputType; 6] = [InputType::NumberDecimal, InputType::NumberSigned, InputType::NumberSignedDecimal, InputType::Password, InputType::Phone, InputType::Text];
pub const SCALES: [ImageScaleType; 7] = [ImageScaleType::Center, ImageScaleType::FitXy, ImageScaleType::FitStart, ImageScaleType::FitCenter, ImageScaleType::FitEnd, ImageScaleType::CenterCrop, ImageScaleType::CenterInside];
pub const LORIENTS: [LOrient; 3] = [LOrient::Vertical, LOrient::Unspecified, LOrient::Horizontal];

pub fn color(r: &mut Rng) -> Color { Color::from(r.u32()) }
pub fn options(r: &mut Rng) -> ActivityOptions {
    ActivityOptions { toolbar_enabled: r.bool(), fullscreen_enabled: r.bool(), drawer_enabled: r.bool(), fab_enabled: r.bool() }
}
pub fn file_item(r: &mut Rng) -> FileItem {
    FileItem { filename: r.text(), file_type: *r.pick(&FILE_TYPES), keyboard_setting: *r.pick(&KEYBOARDS), options: options(r), orientation: *r.pick(&ORIENTS), theme: *r.pick(&THEMES) }
}
pub fn vec<T>(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> T) -> Vec<T> { let n = r.below(max + 1); (0..n).map(|_| f(r)).collect() }
pub fn file(r: &mut Rng, n: usize) -> File { File { activities: vec(r, n, file_item), custom_views: vec(r, n, file_item) } }
pub fn lib_item(r: &mut Rng) -> LibraryItem {
    LibraryItem { ad_units: vec(r, 3, |r| AdUnit { id: r.text(), name: r.text() }), data: r.text(), lib_type: r.u8(), reserved1: r.text(), reserved2: r.text(), reserved3: r.text(), test_devices: vec(r, 3, |r| r.text()), use_yn: if r.bool() { if r.bool() { "Y" } else { "N" }.to_string() } else { r.text() } }
}
pub fn library(r: &mut Rng) -> Library { Library { firebase_db: lib_item(r), compat: lib_item(r), admob: lib_item(r), google_map: lib_item(r) } }
pub fn res_item(r: &mut Rng) -> ResourceItem { ResourceItem { full_name: r.text(), name: r.text(), r#type: r.u8() } }
pub fn resource(r: &mut Rng, n: usize) -> Resource { Resource { images: vec(r, n, res_item), sounds: vec(r, n, res_item), fonts: vec(r, n, res_item) } }
/// a timestamp whose year is 0..=9999, as the u64 the model stores
pub fn timestamp(r: &mut Rng) -> u64 {
    // 0000-01-01T00:00:00Z and 9999-12-31T23:59:59Z
    const LO: i64 = -62167219200; const HI: i64 = 253402300799;
    let v = match r.below(5) {
        0 => *r.pick(&[0i64, LO, HI, 86399, 86400, -1, 951782400, 951868800, 946684799, 946684800, 1709164800, 1709251199, 4107542400, 1641081600, 1609459200]),
        1 => 946684800 + r.below(1_000_000_000) as i64,
        // small fields: single digit month, day, hour, minute, second
        2 => { let y = r.below(60) as i64; (y * 365 + r.below(9) as i64) * 86400 + r.below(10) as i64 * 3600 + r.below(10) as i64 * 60 + r.below(10) as i64 }
        _ => LO + (r.next() % (HI - LO + 1) as u64) as i64,
    };
    v as u64
}
pub fn project(r: &mut Rng) -> Project {
    Project {
        id: r.u16(), app_name: r.text(), workspace_name: r.text(), package_name: r.text(), version_code: r.u16(), version_name: r.text(), date_created: timestamp(r), custom_icon: r.bool(),
        color_palette: ProjectColorPalette { color_primary: color(r), color_primary_dark: color(r), color_accent: color(r), color_control_normal: color(r), color_control_highlight: color(r) },
        sketchware_version: r.u8(),
    }
}
pub fn size(r: &mut Rng) -> Size { match r.below(3) { 0 => Size::MatchParent, 1 => Size::WrapContent, _ => loop { let v = r.i32(); if v != -1 && v != -2 { break Size::Fixed(v) } } } }
pub fn otext(r: &mut Rng) -> Option<String> { if r.bool() { Some(r.text()) } else { None } }
pub fn android_view(r: &mut Rng) -> AndroidView {
    AndroidView {
        ad_size: r.text(), ad_unit_id: r.text(), alpha: r.f32(), checked: r.bool(),
        choice_mode: *r.pick(&[ChoiceMode::None, ChoiceMode::Single, ChoiceMode::Multi]),
        clickable: r.bool(), custom_view: r.text(), divider_height: r.u32(), enabled: r.bool(), first_day_of_week: r.u8(), id: r.text(),
        image: ImageConfig { res_name: otext(r), rotate: r.i32() as i16, scale_type: *r.pick(&SCALES) },
        indeterminate: r.bool(), index: r.u32(),
        layout: LayoutConfig {
            background_color: color(r), gravity: Gravity(r.u8()), height: size(r), layout_gravity: Gravity(r.u8()),
            margin_bottom: r.u32(), margin_left: r.u32(), margin_right: r.u32(), margin_top: r.u32(),
            orientation: *r.pick(&LORIENTS), padding_bottom: r.u32(), padding_left: r.u32(), padding_right: r.u32(), padding_top: r.u32(),
            weight: r.u32(), weight_sum: r.u32(), width: size(r),
        },
        max: r.u32(), parent: otext(r), parent_type: r.u8() as i8, pre_id: otext(r), pre_index: r.i32(), pre_parent: otext(r), pre_parent_type: r.u8() as i8,
        progress: r.u32(), progress_style: r.text(), scale_x: r.f32(), scale_y: r.f32(),
        spinner_mode: *r.pick(&[SpinnerMode::Dialog, SpinnerMode::Dropdown]),
        text: TextConfig {
            hint: r.text(), hint_color: color(r), ime_option: *r.pick(&IMES), input_type: *r.pick(&INPUTS), line: r.u32(), single_line: r.bool(),
            text: r.text(), text_color: color(r), text_font: r.text(), text_size: r.u32(), text_type: *r.pick(&TEXT_TYPES),
        },
        translation_x: r.f32(), translation_y: r.f32(), r#type: if r.bool() { r.below(20) as u8 } else { r.u8() },
    }
}
pub fn view(r: &mut Rng, n: usize) -> View {
    let k = r.below(n + 1);
    let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() };
    for name in r.names(k, &["."]) { let m = if r.chance(1, 3) { 0 } else { 4 }; v.layouts.insert(name, Layout(vec(r, m, android_view))); }
    let k = r.below(n + 1);
    let mut fabs = r.names(k, &["."]);
    if r.bool() { for (i, n) in v.layouts.keys().enumerate() { if i < fabs.len() && !fabs.contains(n) { fabs[i] = n.clone(); } } }
    for name in fabs { v.fabs.insert(name, android_view(r)); }
    v
}
pub fn pblock(r: &mut Rng) -> PBlock {
    PBlock { color: color(r), id: r.text(), next_block: r.i32(), op_code: r.text(), parameters: vec(r, 4, |r| r.text()), spec: r.text(), sub_stack1: r.i32(), sub_stack2: r.i32(), r#type: r.text(), type_name: r.text() }
}
pub fn component(r: &mut Rng) -> Component { Component { id: r.text(), param1: r.text(), param2: r.text(), param3: r.text(), r#type: r.u8() } }
pub fn pevent(r: &mut Rng) -> PEvent { PEvent { event_name: r.text(), event_type: r.u8(), target_id: r.text(), target_type: r.u8() } }
pub fn variables(r: &mut Rng, n: usize) -> VariablePool {
    let k = r.below(n + 1);
    let mut m = LinkedHashMap::new();
    for name in r.names(k, &[]) { m.insert(name.clone(), Variable { name, r#type: *r.pick(&VTYPES) }); }
    VariablePool(m)
}
pub fn lists(r: &mut Rng, n: usize) -> ListVariablePool {
    let k = r.below(n + 1);
    let mut m = LinkedHashMap::new();
    for name in r.names(k, &[]) { m.insert(name.clone(), ListVariable { name, r#type: *r.pick(&VTYPES) }); }
    ListVariablePool(m)
}
pub fn more_blocks(r: &mut Rng, n: usize) -> MoreBlockPool {
    let k = r.below(n + 1);
    let mut m = LinkedHashMap::new();
    for id in r.names(k, &[":"]) { let spec = r.name(&[]); m.insert(id.clone(), PMoreBlock { id, spec }); }
    MoreBlockPool(m)
}
pub const RESERVED: [&str; 5] = ["var", "list", "components", "events", "func"];
pub fn screen_logic(r: &mut Rng, name: String, n: usize) -> ScreenLogic {
    loop {
        let mut s = ScreenLogic::new_empty(name.clone());
        let k = if r.bool() { 0 } else { r.below(n + 1) };
        for c in r.names(k, &[".java_"]) {
            if RESERVED.contains(&c.as_str()) { continue }
            let m = if r.chance(1, 4) { 0 } else { 4 };
            s.block_containers.insert(c, BlockContainer(vec(r, m, pblock)));
        }
        if r.bool() { s.variables = Some(variables(r, n)) }
        if r.bool() { s.list_variables = Some(lists(r, n)) }
        if r.bool() { s.components = Some(ComponentPool(vec(r, n, component))) }
        if r.bool() { s.events = Some(EventPool(vec(r, n, pevent))) }
        if r.bool() { s.more_blocks = Some(more_blocks(r, n)) }
        let empty = s.block_containers.is_empty() && s.variables.is_none() && s.list_variables.is_none() && s.components.is_none() && s.events.is_none() && s.more_blocks.is_none();
        if !empty { return s }
    }
}
pub fn logic(r: &mut Rng, n: usize) -> Logic {
    let k = r.below(n + 1);
    let mut l = Logic { screens: LinkedHashMap::new() };
    for name in r.names(k, &[".java_"]) { let s = screen_logic(r, name.clone(), n); l.screens.insert(name, s); }
    l
}
pub const RTYPES: [ResourceType; 3] = [ResourceType::Image, ResourceType::Sound, ResourceType::Font];
pub fn wrapper(r: &mut Rng, full_name: String, t: ResourceType) -> ResourceFileWrapper {
    if r.bool() { ResourceFileWrapper::StringId { id: r.text(), res_full_name: full_name, res_type: t } }
    else { ResourceFileWrapper::U32Id { id: r.u32(), res_full_name: full_name, res_type: t } }
}
pub fn resource_files(r: &mut Rng, n: usize) -> ResourceFiles {
    let mut f = ResourceFiles::default();
    if r.bool() { let nm = r.text(); f.custom_icon = Some(wrapper(r, nm, ResourceType::CustomIcon)); }
    let k = r.below(n + 1); for nm in r.names(k, &[]) { let w = wrapper(r, nm.clone(), ResourceType::Image); f.images.insert(nm, w); }
    let k = r.below(n + 1); for nm in r.names(k, &[]) { let w = wrapper(r, nm.clone(), ResourceType::Sound); f.sounds.insert(nm, w); }
    let k = r.below(n + 1); for nm in r.names(k, &[]) { let w = wrapper(r, nm.clone(), ResourceType::Font); f.fonts.insert(nm, w); }
    f
}
