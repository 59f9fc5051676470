/// a model whose code and specs can be written (C16, C15)
pub open spec fn writable(m: Model) -> bool {
    forall|i: int| 0 <= i < m.screens@.len() ==> screen_writable(#[trigger] m.screens@[i])
}
pub open spec fn tree_writable(b: Blocks) -> bool { good_tree(b) && 10 + seq_size(b.0, b.0@.len()) <= i32::MAX }
pub open spec fn screen_writable(s: Screen) -> bool {
    &&& forall|i: int| 0 <= i < s.events@.len() ==> tree_writable((#[trigger] s.events@[i]).code)
    &&& forall|i: int| 0 <= i < s.more_blocks@.len() ==> tree_writable((#[trigger] s.more_blocks@[i]).1.code) && good_spec(s.more_blocks@[i].1.spec) && s.more_blocks@[i].1.name == s.more_blocks@[i].0
}
/// a model that is consistent with Sketchware's naming
pub open spec fn proper(m: Model) -> bool {
    &&& names_ok(m) && writable(m)
    &&& forall|i: int| 0 <= i < m.screens@.len() ==> ({ let s = #[trigger] m.screens@[i]; s.java_name@ == java_name(s.layout_name@) && layout_ok(s.layout) && (s.fab matches Some(v) ==> fab_ok(v)) && events_ok(s.events@, s.more_blocks@) })
    &&& forall|i: int| 0 <= i < m.custom_views@.len() ==> layout_ok((#[trigger] m.custom_views@[i]).layout)
    &&& res_names_ok(m.resources.images@) && res_names_ok(m.resources.sounds@) && res_names_ok(m.resources.fonts@)
}
// -- good trees have no bare references in them
pub proof fn seq_full(v: Vec<ABlock>, n: nat) requires n <= v@.len(), seq_every(v, n, |b: ABlock| good_block(b)) ensures seq_whole(v, n) decreases v, n { if n > 0 { seq_full(v, (n - 1) as nat); block_full(v[n - 1]); } }
pub proof fn nest_full(o: Option<Blocks>) requires nest_every(o, |b: ABlock| good_block(b)) ensures nest_whole(o) decreases o, 0nat { if let Some(bs) = o { seq_full(bs.0, bs.0@.len()); } }
pub proof fn block_full(b: ABlock) requires every(b, |b: ABlock| good_block(b)) ensures whole(b) decreases b, 0nat { nest_full(b.sub_stack1); nest_full(b.sub_stack2); items_full(b.content.items, b.content.items@.len()); }
pub proof fn items_full(v: Vec<SpecItem>, n: nat) requires n <= v@.len(), items_every(v, n, |b: ABlock| good_block(b)), forall|i: int| 0 <= i < v@.len() ==> good_item(#[trigger] v@[i]) ensures items_whole(v, n) decreases v, n { if n > 0 { items_full(v, (n - 1) as nat); assert(good_item(v@[n - 1])); match v[n - 1] { SpecItem::Text(t) => {} SpecItem::Parameter(a) => { arg_full(a); } } } }
pub proof fn arg_full(a: Argument) requires arg_every(a, |b: ABlock| good_block(b)), good_arg(a) ensures arg_whole(a) decreases a, 0nat { match a { Argument::String { name, value } => { val_full(value); } Argument::Number { name, value } => { val_full(value); } Argument::Boolean { name, value } => { val_full(value); } Argument::Menu { name, value } => { val_full(value); } } }
pub proof fn val_full<T>(v: ArgValue<T>) requires val_every(v, |b: ABlock| good_block(b)), !(v is BlockPlaceholder) ensures val_whole(v) decreases v, 0nat { match v { ArgValue::Block(b) => { block_full(b); } _ => {} } }
pub proof fn tree_back(b: Blocks) requires tree_writable(b) ensures code_back(b), fits(b) { c16_back(b); seq_full(b.0, b.0@.len()); }
/// C22: such a model can be saved, what is saved can be opened, and opens as the model
pub proof fn c22_model(m: Model)
    requires proper(m)
    ensures savable(m), consistent(m)
{
    assert forall|i: int| 0 <= i < m.screens@.len() implies screen_ok(#[trigger] m.screens@[i]) && codes_fit(m.screens@[i].events@, m.screens@[i].more_blocks@) by {
        let s = m.screens@[i]; assert(screen_writable(s));
        assert forall|j: int| 0 <= j < s.events@.len() implies code_back((#[trigger] s.events@[j]).code) && fits(s.events@[j].code) by { tree_back(s.events@[j].code); }
        assert forall|j: int| 0 <= j < s.more_blocks@.len() implies (#[trigger] s.more_blocks@[j]).1.name == s.more_blocks@[j].0 && content_of(content_text(s.more_blocks@[j].1.spec)) == Some(s.more_blocks@[j].1.spec) && code_back(s.more_blocks@[j].1.code) && fits(s.more_blocks@[j].1.code) by { tree_back(s.more_blocks@[j].1.code); c22_spec(s.more_blocks@[j].1.spec); }
    }
}
/// the program's own two conversions, one after the other
pub fn save_and_open(m: Model) -> (r: Result<Model, VpErr>)
    requires proper(m)
    ensures r matches Ok(n) && same_model(m, n)
{
    proof { c22_model(m); }
    let p = ParsedProject::from(m);
    proof { c22_back(m, p); }
    Model::try_from(p)
}
