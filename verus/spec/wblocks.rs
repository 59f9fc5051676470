// ---- writing block trees: a block, then the blocks of its arguments, then its nested sequences; ids count up in that order
pub use crate::api::block::BlockCategory as Cat;
pub open spec fn literal_block(v: bool) -> ABlock {
    ABlock { sub_stack1: None, sub_stack2: None, color: cat_color(Cat::Operator), op_code: string_of(v.disp()), content: BlockContent { items: vec_of(seq![SpecItem::Text(string_of(v.disp()))]) }, block_type: BlockType::Argument(ArgumentBlockReturnType::Boolean) }
}
/// how many blocks are written for a block, its arguments and its nested sequences
pub open spec fn block_size(b: ABlock) -> nat decreases b, 0nat { 1 + items_size(b.content.items, b.content.items@.len()) + nest_size(b.sub_stack1) + nest_size(b.sub_stack2) }
pub open spec fn nest_size(o: Option<Blocks>) -> nat decreases o, 0nat { match o { None => 0, Some(bs) => seq_size(bs.0, bs.0@.len()) } }
pub open spec fn seq_size(v: Vec<ABlock>, n: nat) -> nat decreases v, n when n <= v@.len() { if n == 0 { 0 } else { seq_size(v, (n - 1) as nat) + block_size(v[n - 1]) } }
pub open spec fn items_size(v: Vec<SpecItem>, n: nat) -> nat decreases v, n when n <= v@.len() { if n == 0 { 0 } else { items_size(v, (n - 1) as nat) + (match v[n - 1] { SpecItem::Text(t) => 0, SpecItem::Parameter(a) => arg_size(a) }) } }
pub open spec fn arg_size(a: Argument) -> nat decreases a, 0nat {
    match a {
        Argument::String { name, value } => val_size(value),
        Argument::Number { name, value } => val_size(value),
        Argument::Boolean { name, value } => match value { ArgValue::Value(v) => 1, _ => val_size(value) },
        Argument::Menu { name, value } => val_size(value),
    }
}
pub open spec fn val_size<T>(v: ArgValue<T>) -> nat decreases v, 0nat { match v { ArgValue::Block(b) => block_size(b), _ => 0 } }
/// no argument is a mere reference
pub open spec fn whole(b: ABlock) -> bool decreases b, 0nat { items_whole(b.content.items, b.content.items@.len()) && nest_whole(b.sub_stack1) && nest_whole(b.sub_stack2) }
pub open spec fn nest_whole(o: Option<Blocks>) -> bool decreases o, 0nat { match o { None => true, Some(bs) => seq_whole(bs.0, bs.0@.len()) } }
pub open spec fn seq_whole(v: Vec<ABlock>, n: nat) -> bool decreases v, n when n <= v@.len() { n == 0 || seq_whole(v, (n - 1) as nat) && whole(v[n - 1]) }
pub open spec fn items_whole(v: Vec<SpecItem>, n: nat) -> bool decreases v, n when n <= v@.len() { n == 0 || items_whole(v, (n - 1) as nat) && (match v[n - 1] { SpecItem::Text(t) => true, SpecItem::Parameter(a) => arg_whole(a) }) }
pub open spec fn arg_whole(a: Argument) -> bool decreases a, 0nat { match a { Argument::String { name, value } => val_whole(value), Argument::Number { name, value } => val_whole(value), Argument::Boolean { name, value } => val_whole(value), Argument::Menu { name, value } => val_whole(value) } }
pub open spec fn val_whole<T>(v: ArgValue<T>) -> bool decreases v, 0nat { match v { ArgValue::Block(b) => whole(b), ArgValue::BlockPlaceholder { block_id } => false, _ => true } }
/// type texts
pub open spec fn type_text(t: BlockType) -> Seq<char> { match t {
    BlockType::Regular => " "@,
    BlockType::Control(c) => match c { BlockControl::OneNest => "c"@, BlockControl::TwoNest => "e"@, BlockControl::EndingBlock => "f"@ },
    BlockType::Argument(a) => match a { ArgumentBlockReturnType::Boolean => "b"@, ArgumentBlockReturnType::String => "s"@, ArgumentBlockReturnType::Number => "d"@, ArgumentBlockReturnType::View { type_name } => "v"@, ArgumentBlockReturnType::Component { type_name } => "p"@, ArgumentBlockReturnType::List { inner_type } => "l"@ },
} }
pub open spec fn type_name_text(t: BlockType) -> Option<String> { match t {
    BlockType::Argument(ArgumentBlockReturnType::View { type_name }) => Some(type_name),
    BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) => Some(type_name),
    BlockType::Argument(ArgumentBlockReturnType::List { inner_type }) => Some(match inner_type { ListItem::String => string_of("List String"@), ListItem::Number => string_of("List Number"@) }),
    _ => None
} }
pub open spec fn ref_text(id: int) -> String { string_of("@"@ + dec(id)) }
/// the argument text of a parameter, given the id its block gets
pub open spec fn arg_text(a: Argument, id: int) -> String { match a {
    Argument::String { name, value } => match value { ArgValue::Value(v) => v, ArgValue::Block(b) => ref_text(id), _ => string_of(""@) },
    Argument::Number { name, value } => match value { ArgValue::Value(v) => string_of(v.disp()), ArgValue::Block(b) => ref_text(id), _ => string_of(""@) },
    Argument::Boolean { name, value } => match value { ArgValue::Value(v) => ref_text(id), ArgValue::Block(b) => ref_text(id), _ => string_of(""@) },
    Argument::Menu { name, value } => match value { ArgValue::Value(v) => v, ArgValue::Block(b) => ref_text(id), _ => string_of(""@) },
} }
pub open spec fn items_texts(v: Vec<SpecItem>, n: nat, id: int) -> Seq<String> decreases n { if n == 0 { Seq::empty() } else { let p = items_texts(v, (n - 1) as nat, id); match v@[n - 1] { SpecItem::Text(t) => p, SpecItem::Parameter(a) => p.push(arg_text(a, id + items_size(v, (n - 1) as nat))) } } }
pub open spec fn nest_ref(o: Option<Blocks>, id: int) -> i32 { if nest_size(o) == 0 { -1i32 } else { id as i32 } }
/// the record of a block itself
pub open spec fn head(b: ABlock, id: int, last: bool) -> PBlock {
    let n1 = id + 1 + items_size(b.content.items, b.content.items@.len());
    PBlock { color: b.color, id: string_of(dec(id)), next_block: if last { -1i32 } else { (id + block_size(b)) as i32 }, op_code: b.op_code, parameters: vec_of(items_texts(b.content.items, b.content.items@.len(), id + 1)), spec: string_of(content_text(b.content)), r#type: string_of(type_text(b.block_type)),
        type_name: match type_name_text(b.block_type) { Some(n) => n, None => string_of(""@) }, sub_stack1: nest_ref(b.sub_stack1, n1), sub_stack2: nest_ref(b.sub_stack2, n1 + nest_size(b.sub_stack1)) }
}
pub open spec fn w_block(b: ABlock, id: int, last: bool) -> Seq<PBlock> decreases b, 0nat {
    let k = items_size(b.content.items, b.content.items@.len());
    seq![head(b, id, last)] + w_items(b.content.items, b.content.items@.len(), id + 1) + (w_nest(b.sub_stack1, id + 1 + k) + w_nest(b.sub_stack2, id + 1 + k + nest_size(b.sub_stack1)))
}
pub open spec fn w_nest(o: Option<Blocks>, id: int) -> Seq<PBlock> decreases o, 0nat { match o { None => Seq::empty(), Some(bs) => w_seq(bs.0, bs.0@.len(), id) } }
pub open spec fn w_seq(v: Vec<ABlock>, n: nat, id: int) -> Seq<PBlock> decreases v, n when n <= v@.len() { if n == 0 { Seq::empty() } else { w_seq(v, (n - 1) as nat, id) + w_block(v[n - 1], id + seq_size(v, (n - 1) as nat), n == v@.len()) } }
pub open spec fn w_items(v: Vec<SpecItem>, n: nat, id: int) -> Seq<PBlock> decreases v, n when n <= v@.len() { if n == 0 { Seq::empty() } else { w_items(v, (n - 1) as nat, id) + (match v[n - 1] { SpecItem::Text(t) => Seq::empty(), SpecItem::Parameter(a) => w_arg(a, id + items_size(v, (n - 1) as nat)) }) } }
pub open spec fn w_arg(a: Argument, id: int) -> Seq<PBlock> decreases a, 0nat {
    match a {
        Argument::String { name, value } => w_val(value, id),
        Argument::Number { name, value } => w_val(value, id),
        Argument::Boolean { name, value } => match value { ArgValue::Value(v) => seq![head(literal_block(v), id, true)], _ => w_val(value, id) },
        Argument::Menu { name, value } => w_val(value, id),
    }
}
pub open spec fn w_val<T>(v: ArgValue<T>, id: int) -> Seq<PBlock> decreases v, 0nat { match v { ArgValue::Block(b) => w_block(b, id, true), _ => Seq::empty() } }
/// the same, not unfolded
#[verifier::opaque]
pub open spec fn sz(b: ABlock) -> nat { block_size(b) }
#[verifier::opaque]
pub open spec fn wh(b: ABlock) -> bool { whole(b) }
#[verifier::opaque]
pub open spec fn wr(b: ABlock, id: int, last: bool) -> Seq<PBlock> { w_block(b, id, last) }
#[verifier::opaque]
pub open spec fn asz(a: Argument) -> nat { arg_size(a) }
#[verifier::opaque]
pub open spec fn awh(a: Argument) -> bool { arg_whole(a) }
#[verifier::opaque]
pub open spec fn awr(a: Argument, id: int) -> Seq<PBlock> { w_arg(a, id) }
pub proof fn arg_cases(a: Argument, id: int)
    ensures match a {
        Argument::String { name, value } => match value { ArgValue::Block(b) => asz(a) == sz(b) && awh(a) == wh(b) && awr(a, id) == wr(b, id, true), _ => asz(a) == 0 && awr(a, id) == Seq::<PBlock>::empty() && (awh(a) <==> !(value is BlockPlaceholder)) },
        Argument::Number { name, value } => match value { ArgValue::Block(b) => asz(a) == sz(b) && awh(a) == wh(b) && awr(a, id) == wr(b, id, true), _ => asz(a) == 0 && awr(a, id) == Seq::<PBlock>::empty() && (awh(a) <==> !(value is BlockPlaceholder)) },
        Argument::Menu { name, value } => match value { ArgValue::Block(b) => asz(a) == sz(b) && awh(a) == wh(b) && awr(a, id) == wr(b, id, true), _ => asz(a) == 0 && awr(a, id) == Seq::<PBlock>::empty() && (awh(a) <==> !(value is BlockPlaceholder)) },
        Argument::Boolean { name, value } => match value { ArgValue::Block(b) => asz(a) == sz(b) && awh(a) == wh(b) && awr(a, id) == wr(b, id, true), ArgValue::Value(v) => asz(a) == 1 && awh(a) && asz(a) == sz(literal_block(v)) && wh(literal_block(v)) && awr(a, id) == wr(literal_block(v), id, true), _ => asz(a) == 0 && awr(a, id) == Seq::<PBlock>::empty() && (awh(a) <==> !(value is BlockPlaceholder)) },
    },
{
    reveal(sz); reveal(wh); reveal(wr); reveal(asz); reveal(awh); reveal(awr); reveal_with_fuel(arg_size, 3); reveal_with_fuel(w_arg, 3); reveal_with_fuel(arg_whole, 3);
    if let Argument::Boolean { name, value: ArgValue::Value(v) } = a { literal_is(v, id); }
}
/// the parts of a block as they are written
pub proof fn block_parts(b: ABlock, id: int, last: bool)
    ensures
        sz(b) == 1 + items_size(b.content.items, b.content.items@.len()) + nest_size(b.sub_stack1) + nest_size(b.sub_stack2),
        wh(b) ==> items_whole(b.content.items, b.content.items@.len()) && nest_whole(b.sub_stack1) && nest_whole(b.sub_stack2),
        wr(b, id, last) == seq![head(b, id, last)] + w_items(b.content.items, b.content.items@.len(), id + 1) + (w_nest(b.sub_stack1, id + 1 + items_size(b.content.items, b.content.items@.len())) + w_nest(b.sub_stack2, id + 1 + items_size(b.content.items, b.content.items@.len()) + nest_size(b.sub_stack1))),
        head(b, id, last).next_block == (if last { -1i32 } else { (id + sz(b)) as i32 }),
{ reveal(sz); reveal(wh); reveal(wr); }
/// the same, by the parameters alone
pub open spec fn args_size(a: Seq<Argument>, n: nat) -> nat decreases n { if n == 0 { 0 } else { args_size(a, (n - 1) as nat) + asz(a[n - 1]) } }
pub open spec fn w_args(a: Seq<Argument>, n: nat, id: int) -> Seq<PBlock> decreases n { if n == 0 { Seq::empty() } else { w_args(a, (n - 1) as nat, id) + awr(a[n - 1], id + args_size(a, (n - 1) as nat)) } }
pub open spec fn args_texts(a: Seq<Argument>, n: nat, id: int) -> Seq<String> decreases n { if n == 0 { Seq::empty() } else { args_texts(a, (n - 1) as nat, id).push(arg_text(a[n - 1], id + args_size(a, (n - 1) as nat))) } }
pub proof fn args_ext(a: Seq<Argument>, b: Seq<Argument>, n: nat, id: int) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures args_size(a, n) == args_size(b, n), w_args(a, n, id) == w_args(b, n, id), args_texts(a, n, id) == args_texts(b, n, id) decreases n
{ if n > 0 { args_ext(a, b, (n - 1) as nat, id); assert(a[n - 1] == b[n - 1]); } }
pub proof fn by_args(v: Vec<SpecItem>, n: nat, id: int) requires n <= v@.len()
    ensures ({ let a = params(v@, n); args_size(a, a.len()) == items_size(v, n) && w_args(a, a.len(), id) == w_items(v, n, id) && args_texts(a, a.len(), id) == items_texts(v, n, id) && (items_whole(v, n) ==> forall|i: int| 0 <= i < a.len() ==> awh(#[trigger] a[i])) })
    decreases n
{
    reveal(asz); reveal(awh); reveal(awr);
    if n > 0 {
        let n1 = (n - 1) as nat; by_args(v, n1, id); let a1 = params(v@, n1); let a = params(v@, n);
        assert(v@[n - 1] == v[n - 1]);
        match v@[n - 1] {
            SpecItem::Text(t) => { assert(w_items(v, n, id) =~= w_items(v, n1, id)); }
            SpecItem::Parameter(p) => { args_ext(a1, a, a1.len(), id); assert(a[a1.len() as int] == p); assert forall|i: int| items_whole(v, n) && 0 <= i < a.len() implies awh(#[trigger] a[i]) by { if i < a1.len() { assert(a[i] == a1[i]); } } }
        }
    }
}
pub proof fn args_up_to(a: Seq<Argument>, k: nat, n: nat) requires k <= n ensures args_size(a, k) <= args_size(a, n), k < n ==> args_size(a, k) + asz(a[k as int]) <= args_size(a, n) decreases n
{ if k < n { args_up_to(a, k, (n - 1) as nat); } }
pub proof fn seq_up_to(v: Vec<ABlock>, k: nat, n: nat) requires k <= n <= v@.len() ensures seq_size(v, k) <= seq_size(v, n), k < n ==> seq_size(v, k) + block_size(v[k as int]) <= seq_size(v, n), seq_whole(v, n) ==> seq_whole(v, k) && (k < n ==> whole(v[k as int])) decreases n
{ if k < n { seq_up_to(v, k, (n - 1) as nat); } }
/// a boolean value is written as a block that is its value
pub proof fn literal_is(v: bool, id: int) ensures wh(literal_block(v)), sz(literal_block(v)) == 1, wr(literal_block(v), id, true) == seq![head(literal_block(v), id, true)]
{
    reveal(sz); reveal(wh); reveal(wr);
    broadcast use vp_views; let b = literal_block(v); let its = b.content.items;
    assert(its@ =~= seq![SpecItem::Text(string_of(v.disp()))]);
    assert(its@.len() == 1); assert(its[0] == SpecItem::Text(string_of(v.disp())));
    reveal_with_fuel(items_size, 2); reveal_with_fuel(items_whole, 2); reveal_with_fuel(w_items, 2);
    assert(items_size(its, 1) == 0); assert(w_items(its, 1, id + 1) =~= Seq::empty());
    assert(w_block(b, id, true) =~= seq![head(b, id, true)]);
}
/// ids count up from the first one
pub open spec fn numbered(w: Seq<PBlock>, id: int, n: nat) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] w[i]).id == string_of(dec(id + i)) }
pub proof fn num_cat(a: Seq<PBlock>, b: Seq<PBlock>, id: int, n: nat, m: nat) requires numbered(a, id, n), numbered(b, id + n, m) ensures numbered(a + b, id, n + m)
{ assert forall|i: int| 0 <= i < n + m implies (#[trigger] (a + b)[i]).id == string_of(dec(id + i)) by { if i < n { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - n]); } } }
pub proof fn block_num(b: ABlock, id: int, last: bool) ensures numbered(w_block(b, id, last), id, block_size(b)) decreases b, 0nat
{
    let its = b.content.items; let n = its@.len(); let k = items_size(its, n); let h = seq![head(b, id, last)];
    items_num(its, n, id + 1); nest_num(b.sub_stack1, id + 1 + k); nest_num(b.sub_stack2, id + 1 + k + nest_size(b.sub_stack1));
    assert(numbered(h, id, 1));
    num_cat(h, w_items(its, n, id + 1), id, 1, k);
    num_cat(w_nest(b.sub_stack1, id + 1 + k), w_nest(b.sub_stack2, id + 1 + k + nest_size(b.sub_stack1)), id + 1 + k, nest_size(b.sub_stack1), nest_size(b.sub_stack2));
    num_cat(h + w_items(its, n, id + 1), w_nest(b.sub_stack1, id + 1 + k) + w_nest(b.sub_stack2, id + 1 + k + nest_size(b.sub_stack1)), id, 1 + k, nest_size(b.sub_stack1) + nest_size(b.sub_stack2));
}
pub proof fn nest_num(o: Option<Blocks>, id: int) ensures numbered(w_nest(o, id), id, nest_size(o)) decreases o, 0nat { match o { None => {} Some(bs) => seq_num(bs.0, bs.0@.len(), id) } }
pub proof fn seq_num(v: Vec<ABlock>, n: nat, id: int) requires n <= v@.len() ensures numbered(w_seq(v, n, id), id, seq_size(v, n)) decreases v, n
{ if n > 0 { let n1 = (n - 1) as nat; seq_num(v, n1, id); block_num(v[n - 1], id + seq_size(v, n1), n == v@.len()); num_cat(w_seq(v, n1, id), w_block(v[n - 1], id + seq_size(v, n1), n == v@.len()), id, seq_size(v, n1), block_size(v[n - 1])); } }
pub proof fn items_num(v: Vec<SpecItem>, n: nat, id: int) requires n <= v@.len() ensures numbered(w_items(v, n, id), id, items_size(v, n)) decreases v, n
{ if n > 0 { let n1 = (n - 1) as nat; items_num(v, n1, id); let i1 = id + items_size(v, n1); match v[n - 1] { SpecItem::Text(t) => { assert(w_items(v, n, id) =~= w_items(v, n1, id)); } SpecItem::Parameter(a) => { arg_num(a, i1); num_cat(w_items(v, n1, id), w_arg(a, i1), id, items_size(v, n1), arg_size(a)); } } } }
pub proof fn arg_num(a: Argument, id: int) ensures numbered(w_arg(a, id), id, arg_size(a)) decreases a, 0nat
{ match a { Argument::String { name, value } => val_num(value, id), Argument::Number { name, value } => val_num(value, id), Argument::Boolean { name, value } => match value { ArgValue::Value(v) => { assert(w_arg(a, id) =~= seq![head(literal_block(v), id, true)]); } _ => val_num(value, id) }, Argument::Menu { name, value } => val_num(value, id) } }
pub proof fn val_num<T>(v: ArgValue<T>, id: int) ensures numbered(w_val(v, id), id, val_size(v)) decreases v, 0nat { match v { ArgValue::Block(b) => block_num(b, id, true), _ => {} } }
