pub use crate::api::view::{View as VNode, ViewType, SidesValue};
pub use crate::parser::view::models::{AndroidView, ImageConfig, LayoutConfig, TextConfig};
pub use crate::parser::view::models::layout::Orientation as LOrientation;
/// the kind a raw view shows: recognised by its type number, with that view's own attribute values
pub open spec fn kind_of_view(v: AndroidView) -> Option<ViewType> {
    if v.r#type == 0 { Some(ViewType::LinearLayout { orientation: v.layout.orientation, gravity: v.layout.gravity }) }
    else if v.r#type == 2 { Some(ViewType::ScrollView { orientation: LOrientation::Horizontal, gravity: v.layout.gravity }) }
    else if v.r#type == 12 { Some(ViewType::ScrollView { orientation: LOrientation::Vertical, gravity: v.layout.gravity }) }
    else if v.r#type == 6 { match v.image.res_name { Some(n) => Some(ViewType::ImageView { image_res_name: n, image_scale_type: v.image.scale_type }), None => None } }
    else if v.r#type == 16 { match v.image.res_name { Some(n) => Some(ViewType::Fab { image_res_name: n }), None => None } }
    else if v.r#type == 3 { Some(ViewType::Button { text: v.text.text, text_color: v.text.text_color, text_size: v.text.text_size, text_style: v.text.text_type }) }
    else if v.r#type == 4 { Some(ViewType::TextView { text: v.text.text, text_color: v.text.text_color, text_size: v.text.text_size, single_line: v.text.single_line, text_font: v.text.text_font, text_style: v.text.text_type, lines: v.text.line }) }
    else if v.r#type == 5 { Some(ViewType::EditText { text: v.text.text, text_color: v.text.text_color, text_size: v.text.text_size, single_line: v.text.single_line, text_font: v.text.text_font, text_style: v.text.text_type, lines: v.text.line, hint: v.text.hint, hint_color: v.text.hint_color, ime_option: v.text.ime_option, input_type: v.text.input_type }) }
    else if v.r#type == 7 { Some(ViewType::WebView) }
    else if v.r#type == 8 { Some(ViewType::ProgressBar { max_progress: v.max, progress: v.progress, indeterminate: v.indeterminate, progress_style: v.progress_style }) }
    else if v.r#type == 9 { Some(ViewType::ListView { divider_height: v.divider_height, custom_view: v.custom_view }) }
    else if v.r#type == 10 { Some(ViewType::Spinner { spinner_mode: v.spinner_mode }) }
    else if v.r#type == 11 { Some(ViewType::CheckBox { checked: v.checked, text: v.text.text, text_color: v.text.text_color, text_size: v.text.text_size, text_font: v.text.text_font, text_style: v.text.text_type }) }
    else if v.r#type == 13 { Some(ViewType::Switch { checked: v.checked, text: v.text.text, text_color: v.text.text_color, text_size: v.text.text_size, text_font: v.text.text_font, text_style: v.text.text_type }) }
    else if v.r#type == 14 { Some(ViewType::SeekBar { max_progress: v.max, progress: v.progress }) }
    else if v.r#type == 15 { Some(ViewType::CalendarView { first_day_of_week: v.first_day_of_week }) }
    else if v.r#type == 17 { Some(ViewType::AdView { adview_size: v.ad_size }) }
    else if v.r#type == 18 { Some(ViewType::MapView) }
    else { None }
}
/// the type number of a kind
pub open spec fn kind_number(k: ViewType) -> u8 {
    match k {
        ViewType::LinearLayout { .. } => 0,
        ViewType::ScrollView { orientation, .. } => if orientation == LOrientation::Vertical { 12 } else { 2 },
        ViewType::ImageView { .. } => 6,
        ViewType::Fab { .. } => 16,
        ViewType::Button { .. } => 3,
        ViewType::TextView { .. } => 4,
        ViewType::EditText { .. } => 5,
        ViewType::WebView => 7,
        ViewType::ProgressBar { .. } => 8,
        ViewType::ListView { .. } => 9,
        ViewType::Spinner { .. } => 10,
        ViewType::CheckBox { .. } => 11,
        ViewType::Switch { .. } => 13,
        ViewType::SeekBar { .. } => 14,
        ViewType::CalendarView { .. } => 15,
        ViewType::AdView { .. } => 17,
        ViewType::MapView => 18,
    }
}
/// a raw view with the attributes of a kind written into it; all others stay
pub open spec fn with_kind(v: AndroidView, k: ViewType) -> AndroidView {
    AndroidView {
        layout: kind_layout(v.layout, k), image: kind_image(v.image, k), text: kind_txt(v.text, k),
        max: match k { ViewType::ProgressBar { max_progress, .. } => max_progress, ViewType::SeekBar { max_progress, .. } => max_progress, _ => v.max },
        progress: match k { ViewType::ProgressBar { progress, .. } => progress, ViewType::SeekBar { progress, .. } => progress, _ => v.progress },
        indeterminate: match k { ViewType::ProgressBar { indeterminate, .. } => indeterminate, _ => v.indeterminate },
        progress_style: match k { ViewType::ProgressBar { progress_style, .. } => progress_style, _ => v.progress_style },
        divider_height: match k { ViewType::ListView { divider_height, .. } => divider_height, _ => v.divider_height },
        custom_view: match k { ViewType::ListView { custom_view, .. } => custom_view, _ => v.custom_view },
        spinner_mode: match k { ViewType::Spinner { spinner_mode } => spinner_mode, _ => v.spinner_mode },
        checked: match k { ViewType::CheckBox { checked, .. } => checked, ViewType::Switch { checked, .. } => checked, _ => v.checked },
        first_day_of_week: match k { ViewType::CalendarView { first_day_of_week } => first_day_of_week, _ => v.first_day_of_week },
        ad_size: match k { ViewType::AdView { adview_size } => adview_size, _ => v.ad_size },
        ..v
    }
}
pub open spec fn kind_layout(l: LayoutConfig, k: ViewType) -> LayoutConfig {
    LayoutConfig {
        orientation: match k { ViewType::LinearLayout { orientation, .. } => orientation, _ => l.orientation },
        gravity: match k { ViewType::LinearLayout { gravity, .. } => gravity, ViewType::ScrollView { gravity, .. } => gravity, _ => l.gravity }, ..l
    }
}
pub open spec fn kind_image(l: ImageConfig, k: ViewType) -> ImageConfig {
    ImageConfig {
        res_name: match k { ViewType::ImageView { image_res_name, .. } => Some(image_res_name), ViewType::Fab { image_res_name } => Some(image_res_name), _ => l.res_name },
        scale_type: match k { ViewType::ImageView { image_scale_type, .. } => image_scale_type, _ => l.scale_type }, ..l
    }
}
pub open spec fn kind_txt(t: TextConfig, k: ViewType) -> TextConfig {
    TextConfig {
        text: match k { ViewType::Button { text, .. } => text, ViewType::TextView { text, .. } => text, ViewType::EditText { text, .. } => text, ViewType::CheckBox { text, .. } => text, ViewType::Switch { text, .. } => text, _ => t.text },
        text_color: match k { ViewType::Button { text_color, .. } => text_color, ViewType::TextView { text_color, .. } => text_color, ViewType::EditText { text_color, .. } => text_color, ViewType::CheckBox { text_color, .. } => text_color, ViewType::Switch { text_color, .. } => text_color, _ => t.text_color },
        text_size: match k { ViewType::Button { text_size, .. } => text_size, ViewType::TextView { text_size, .. } => text_size, ViewType::EditText { text_size, .. } => text_size, ViewType::CheckBox { text_size, .. } => text_size, ViewType::Switch { text_size, .. } => text_size, _ => t.text_size },
        text_type: match k { ViewType::Button { text_style, .. } => text_style, ViewType::TextView { text_style, .. } => text_style, ViewType::EditText { text_style, .. } => text_style, ViewType::CheckBox { text_style, .. } => text_style, ViewType::Switch { text_style, .. } => text_style, _ => t.text_type },
        text_font: match k { ViewType::TextView { text_font, .. } => text_font, ViewType::EditText { text_font, .. } => text_font, ViewType::CheckBox { text_font, .. } => text_font, ViewType::Switch { text_font, .. } => text_font, _ => t.text_font },
        single_line: match k { ViewType::TextView { single_line, .. } => single_line, ViewType::EditText { single_line, .. } => single_line, _ => t.single_line },
        line: match k { ViewType::TextView { lines, .. } => lines, ViewType::EditText { lines, .. } => lines, _ => t.line },
        hint: match k { ViewType::EditText { hint, .. } => hint, _ => t.hint },
        hint_color: match k { ViewType::EditText { hint_color, .. } => hint_color, _ => t.hint_color },
        ime_option: match k { ViewType::EditText { ime_option, .. } => ime_option, _ => t.ime_option },
        input_type: match k { ViewType::EditText { input_type, .. } => input_type, _ => t.input_type }, ..t
    }
}
/// reading after writing: the kind written is the kind read (a scroll view is horizontal or vertical)
pub proof fn kind_write_read(v: AndroidView, k: ViewType)
    requires k matches ViewType::ScrollView { orientation, .. } ==> orientation != LOrientation::Unspecified
    ensures kind_of_view(AndroidView { r#type: kind_number(k), ..with_kind(v, k) }) == Some(k)
{}
/// writing after reading: number and attributes are those of the view
pub proof fn kind_read_write(v: AndroidView)
    ensures kind_of_view(v) matches Some(k) ==> kind_number(k) == v.r#type && with_kind(v, k) == v
{}
/// the tree node of a raw view
pub open spec fn node_of(v: AndroidView) -> VNode {
    VNode {
        id: v.id, background_color: v.layout.background_color, height: v.layout.height, width: v.layout.width,
        padding: SidesValue { top: v.layout.padding_top, right: v.layout.padding_right, bottom: v.layout.padding_bottom, left: v.layout.padding_left },
        margin: SidesValue { top: v.layout.margin_top, right: v.layout.margin_right, bottom: v.layout.margin_bottom, left: v.layout.margin_left },
        weight: v.layout.weight, weight_sum: v.layout.weight_sum, layout_gravity: v.layout.layout_gravity,
        view: match kind_of_view(v) { Some(k) => Ok(k), None => Err(VpErr) }, children: vec_of(Seq::empty()), raw: v,
    }
}
pub open spec fn type_id(v: VNode) -> u8 { match v.view { Ok(k) => kind_number(k), Err(_) => v.raw.r#type } }
/// what flattening writes for one view: the exposed attributes as set in the tree, everything else from the raw view
pub open spec fn written(v: VNode, pid: String, pty: u8) -> AndroidView {
    let base = match v.view { Ok(k) => with_kind(v.raw, k), Err(_) => v.raw };
    AndroidView {
        id: v.id, parent: Some(pid), parent_type: pty as i8, r#type: type_id(v),
        layout: LayoutConfig {
            height: v.height, width: v.width, background_color: v.background_color, layout_gravity: v.layout_gravity, weight: v.weight, weight_sum: v.weight_sum,
            padding_top: v.padding.top, padding_right: v.padding.right, padding_bottom: v.padding.bottom, padding_left: v.padding.left,
            margin_top: v.margin.top, margin_right: v.margin.right, margin_bottom: v.margin.bottom, margin_left: v.margin.left, ..base.layout },
        ..base
    }
}
/// the flat list: the views of a level, then the flat lists of their children
pub open spec fn flat(vs: Vec<VNode>, pid: String, pty: u8) -> Seq<AndroidView> decreases vs, vs@.len() + 1 { heads(vs@, vs@.len(), pid, pty) + kids(vs, vs@.len()) }
pub open spec fn heads(vs: Seq<VNode>, n: nat, pid: String, pty: u8) -> Seq<AndroidView> { Seq::new(n, |i: int| written(vs[i], pid, pty)) }
pub open spec fn kids(vs: Vec<VNode>, n: nat) -> Seq<AndroidView> decreases vs, n when n <= vs@.len() {
    if n == 0 { Seq::empty() } else { kids(vs, (n - 1) as nat) + flat(vs@[n - 1].children, vs@[n - 1].id, type_id(vs@[n - 1])) }
}
/// the first view with an id, parents before children, earlier siblings first
pub open spec fn found(v: VNode, id: Seq<char>) -> Option<VNode> decreases v, 0nat { if v.id@ == id { Some(v) } else { found_in(v.children, 0, id) } }
pub open spec fn found_in(vs: Vec<VNode>, i: nat, id: Seq<char>) -> Option<VNode> decreases vs, vs@.len() - i when i <= vs@.len() {
    if i == vs@.len() { None } else { match found(vs@[i as int], id) { Some(x) => Some(x), None => found_in(vs, i + 1, id) } }
}
/// the tree with that view replaced
pub open spec fn replaced(v: VNode, id: Seq<char>, n: VNode) -> VNode decreases v, 0nat { if v.id@ == id { n } else { VNode { children: vec_of(replaced_in(v.children, 0, id, n)), ..v } } }
pub open spec fn replaced_in(vs: Vec<VNode>, i: nat, id: Seq<char>, n: VNode) -> Seq<VNode> decreases vs, vs@.len() - i when i <= vs@.len() {
    if i == vs@.len() { vs@ } else { match found(vs@[i as int], id) { Some(x) => vs@.update(i as int, replaced(vs@[i as int], id, n)), None => replaced_in(vs, i + 1, id, n) } }
}
/// one more view of the flat list put into the tree: at the top for the root, else as last child of the view its parent names
pub open spec fn placed(tree: Seq<VNode>, v: AndroidView) -> Option<Seq<VNode>> {
    match v.parent {
        None => None,
        Some(p) => if p@ == "root"@ { Some(tree.push(node_of(v))) } else {
            match found_in(vec_of(tree), 0, p@) { None => None, Some(x) => Some(replaced_in(vec_of(tree), 0, p@, VNode { children: vec_of(x.children@.push(node_of(v))), ..x })) }
        }
    }
}
pub open spec fn tree_of(l: Seq<AndroidView>, n: nat) -> Option<Seq<VNode>> decreases n {
    if n == 0 { Some(Seq::empty()) } else { match tree_of(l, (n - 1) as nat) { None => None, Some(t) => placed(t, l[n - 1]) } }
}
pub proof fn lemma_flat_empty(vs: Vec<VNode>, pid: String, pty: u8) ensures vs@.len() == 0 ==> flat(vs, pid, pty) =~= Seq::empty() {}
pub proof fn lemma_tree_none(l: Seq<AndroidView>, i: nat, n: nat) requires i <= n, tree_of(l, i) is None ensures tree_of(l, n) is None decreases n { if i < n { lemma_tree_none(l, i, (n - 1) as nat); } }
