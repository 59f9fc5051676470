pub use crate::api::block::{Blocks, BlockType, BlockControl, ArgumentBlockReturnType, ListItem};
pub use crate::parser::logic::{Block as PBlock, BlockContainer};
pub type Pool = Seq<(u32, PBlock)>;
pub open spec fn list_item_of(s: Seq<char>) -> Option<ListItem> { if s == "List String"@ { Some(ListItem::String) } else if s == "List Number"@ { Some(ListItem::Number) } else { None } }
/// parse::<ListItem>() calls ListItem::from_str
impl VpParse for ListItem { open spec fn of_text(s: Seq<char>) -> Option<ListItem> { list_item_of(s) } }
/// the type of a block from its type text and type name
pub open spec fn block_type_of(s: Seq<char>, tn: String) -> Option<BlockType> {
    if s == "v"@ { Some(BlockType::Argument(ArgumentBlockReturnType::View { type_name: tn })) }
    else if s == "p"@ { Some(BlockType::Argument(ArgumentBlockReturnType::Component { type_name: tn })) }
    else if s == "b"@ { Some(BlockType::Argument(ArgumentBlockReturnType::Boolean)) }
    else if s == "s"@ { Some(BlockType::Argument(ArgumentBlockReturnType::String)) }
    else if s == "d"@ { Some(BlockType::Argument(ArgumentBlockReturnType::Number)) }
    else if s == "l"@ { match list_item_of(tn@) { Some(inner_type) => Some(BlockType::Argument(ArgumentBlockReturnType::List { inner_type })), None => None } }
    else if s == "c"@ { Some(BlockType::Control(BlockControl::OneNest)) }
    else if s == "e"@ { Some(BlockType::Control(BlockControl::TwoNest)) }
    else if s == "f"@ { Some(BlockType::Control(BlockControl::EndingBlock)) }
    else if s == " "@ { Some(BlockType::Regular) }
    else { None }
}
/// a block looked up under its id is used up
pub open spec fn read_block(id: u32, m: Pool) -> Option<(ABlock, Pool)> decreases m.len(), 0int, 0int {
    match lhm_get(m, id) { None => None, Some(b) => {
        let m0 = lhm_del(m, id);
        if m0.len() >= m.len() { None } else { match read_nest(b.sub_stack1, m0) { None => None, Some(p1) =>
        if p1.1.len() >= m.len() { None } else { match read_nest(b.sub_stack2, p1.1) { None => None, Some(p2) =>
        match full_content(b.spec@, b.parameters@) { None => None, Some(c) =>
        if p2.1.len() >= m.len() { None } else { match read_args(c.items@, p2.1, c.items@.len()) { None => None, Some(p3) =>
        match block_type_of(b.r#type@, b.type_name) { None => None, Some(block_type) =>
            Some((ABlock { sub_stack1: p1.0, sub_stack2: p2.0, color: b.color, op_code: b.op_code, content: BlockContent { items: vec_of(p3.0) }, block_type }, p3.1))
        } } } } } } } }
    } }
}
/// a nested sequence; a negative number means there is none
pub open spec fn read_nest(p: i32, m: Pool) -> Option<(Option<Blocks>, Pool)> decreases m.len(), 2int, 0int {
    if p < 0 { Some((None, m)) } else { match read_seq(p as u32, m) { None => None, Some(r) => Some((Some(Blocks(vec_of(r.0))), r.1)) } }
}
/// a sequence follows the next references until one is negative
pub open spec fn read_seq(id: u32, m: Pool) -> Option<(Seq<ABlock>, Pool)> decreases m.len(), 1int, 0int {
    match lhm_get(m, id) { None => None, Some(b) => match read_block(id, m) { None => None, Some(r) =>
        if b.next_block < 0 { Some((seq![r.0], r.1)) } else if r.1.len() >= m.len() { None } else { match read_seq(b.next_block as u32, r.1) { None => None, Some(t) => Some((seq![r.0] + t.0, t.1)) } }
    } }
}
/// the blocks that arguments refer to, in order; a boolean block true or false is that value
pub open spec fn block_val<T>(b: ABlock) -> ArgValue<T> { ArgValue::Block(b) }
pub open spec fn bool_block(b: ABlock) -> ArgValue<bool> { if b.op_code@ == "true"@ { ArgValue::Value(true) } else if b.op_code@ == "false"@ { ArgValue::Value(false) } else { ArgValue::Block(b) } }
pub open spec fn holds(p: Argument) -> Option<u32> { match p {
    Argument::String { name, value } => match value { ArgValue::BlockPlaceholder { block_id } => Some(block_id), _ => None },
    Argument::Number { name, value } => match value { ArgValue::BlockPlaceholder { block_id } => Some(block_id), _ => None },
    Argument::Boolean { name, value } => match value { ArgValue::BlockPlaceholder { block_id } => Some(block_id), _ => None },
    Argument::Menu { name, value } => match value { ArgValue::BlockPlaceholder { block_id } => Some(block_id), _ => None },
} }
pub open spec fn with_block(p: Argument, b: ABlock) -> Argument { match p {
    Argument::String { name, value } => Argument::String { name, value: ArgValue::Block(b) },
    Argument::Number { name, value } => Argument::Number { name, value: ArgValue::Block(b) },
    Argument::Boolean { name, value } => Argument::Boolean { name, value: bool_block(b) },
    Argument::Menu { name, value } => Argument::Menu { name, value: ArgValue::Block(b) },
} }
pub open spec fn read_args(items: Seq<SpecItem>, m: Pool, n: nat) -> Option<(Seq<SpecItem>, Pool)> decreases m.len(), 1int, n {
    if n == 0 { Some((Seq::empty(), m)) } else { match read_args(items, m, (n - 1) as nat) { None => None, Some(p) =>
        match items[n - 1] {
            SpecItem::Text(t) => Some((p.0.push(items[n - 1]), p.1)),
            SpecItem::Parameter(a) => match holds(a) { None => Some((p.0.push(items[n - 1]), p.1)), Some(id) => if p.1.len() > m.len() { None } else { match read_block(id, p.1) { None => None, Some(r) => Some((p.0.push(SpecItem::Parameter(with_block(a, r.0))), r.1)) } } },
        }
    } }
}
/// the blocks by their ids
pub open spec fn pool_of(l: Seq<PBlock>, n: nat) -> Option<Pool> decreases n {
    if n == 0 { Some(Seq::empty()) } else { match pool_of(l, (n - 1) as nat) { None => None, Some(m) => match u32::of_text(l[n - 1].id@) { None => None, Some(id) => Some(lhm_put(m, id, l[n - 1])) } } }
}
/// what is reachable from the first block
pub open spec fn blocks_of(l: Seq<PBlock>) -> Option<Blocks> {
    match pool_of(l, l.len()) { None => None, Some(m) => if m.len() == 0 { Some(Blocks(vec_of(Seq::empty()))) } else { match read_seq(m[0].0, m) { None => None, Some(r) => Some(Blocks(vec_of(r.0))) } } }
}
// ---- the guards never bite: reading uses blocks up
pub proof fn del_less<K, V>(s: Seq<(K, V)>, k: K) ensures lhm_del(s, k).len() <= s.len(), lhm_get(s, k) is Some ==> lhm_del(s, k).len() < s.len() decreases s.len() { if s.len() > 0 { del_less(s.drop_last(), k); } }
pub proof fn block_uses(id: u32, m: Pool) ensures read_block(id, m) matches Some(r) ==> r.1.len() < m.len() decreases m.len(), 0int, 0int
{
    if let Some(b) = lhm_get(m, id) {
        let m0 = lhm_del(m, id); del_less(m, id); nest_uses(b.sub_stack1, m0);
        if let Some(p1) = read_nest(b.sub_stack1, m0) { nest_uses(b.sub_stack2, p1.1);
            if let Some(p2) = read_nest(b.sub_stack2, p1.1) { if let Some(c) = full_content(b.spec@, b.parameters@) { args_use(c.items@, p2.1, c.items@.len()); } }
        }
    }
}
pub proof fn nest_uses(p: i32, m: Pool) ensures read_nest(p, m) matches Some(r) ==> r.1.len() <= m.len() decreases m.len(), 2int, 0int { if p >= 0 { seq_uses(p as u32, m); } }
pub proof fn seq_uses(id: u32, m: Pool) ensures read_seq(id, m) matches Some(r) ==> r.1.len() < m.len() && r.0.len() > 0 decreases m.len(), 1int, 0int
{ if let Some(b) = lhm_get(m, id) { block_uses(id, m); if let Some(r) = read_block(id, m) { if b.next_block >= 0 { seq_uses(b.next_block as u32, r.1); } } } }
pub proof fn args_use(items: Seq<SpecItem>, m: Pool, n: nat) ensures read_args(items, m, n) matches Some(r) ==> r.1.len() <= m.len() decreases m.len(), 1int, n
{
    if n > 0 { args_use(items, m, (n - 1) as nat);
        if let Some(p) = read_args(items, m, (n - 1) as nat) { if let SpecItem::Parameter(a) = items[n - 1] { if let Some(id) = holds(a) { block_uses(id, p.1); } } } }
}
pub proof fn args_none(items: Seq<SpecItem>, m: Pool, k: nat, n: nat) requires k <= n, read_args(items, m, k) is None ensures read_args(items, m, n) is None decreases n { if k < n { args_none(items, m, k, (n - 1) as nat); } }
pub proof fn pool_none(l: Seq<PBlock>, k: nat, n: nat) requires k <= n, pool_of(l, k) is None ensures pool_of(l, n) is None decreases n { if k < n { pool_none(l, k, (n - 1) as nat); } }
