//! C15..C18: blocks.
use crate::gen::*;
use crate::util::*;
use crate::{ensure, same};
use std::collections::{BTreeMap, BTreeSet};
use swrs::api::block::*;
use swrs::parser::logic::{Block as PBlock, BlockContainer};

pub fn props() -> Vec<(&'static str, fn(&mut Ctx), fn(&mut Ctx), &'static str)> {
    vec![
        ("C15", c15_fixed, c15, "random spec texts from words and typed, named parameters with random arguments, against an independent reading; every short token; wrong argument counts and malformed arguments."),
        ("C16", c16_fixed, c16, "random block trees (nested sequences, arguments holding blocks, all literal kinds) saved and read back."),
        ("C17", c16_fixed17, c17, "the same trees saved; ids, references and chaining of the produced container checked directly."),
        ("C18", c18_fixed, c18, "valid containers with mutated references, ids, types, specs and arguments and random containers, against an independent reader that also detects reuse and cycles."),
    ]
}
fn d<T: std::fmt::Debug>(x: &T) -> String { format!("{:?}", x) }

// ---------------------------------------------------------------- generators
pub fn word(r: &mut Rng) -> String {
    match r.below(6) { 0 => r.pick(&["%", "if", "then", "=", "", "a.b", "@5", "x%s", "é", ".", "100%"]).to_string(), _ => { let mut s = r.name(&[" "]); if s.starts_with('%') && s != "%" { s.insert(0, 'p') } s } }
}
pub fn pname(r: &mut Rng) -> String { let s = r.name(&[" "]); if s.is_empty() { "n".into() } else { s } }
fn lit(r: &mut Rng) -> String { let mut s = r.text(); while s.starts_with('@') { s.remove(0); } s }
fn argument(r: &mut Rng, depth: usize) -> Argument {
    let name = if r.bool() { Some(pname(r)) } else { None };
    let b = depth > 0 && r.chance(1, 3);
    match r.below(4) {
        0 => Argument::String { name, value: if b { ArgValue::Block(block(r, depth - 1, true)) } else { ArgValue::Value(lit(r)) } },
        1 => Argument::Number { name, value: if b { ArgValue::Block(block(r, depth - 1, true)) } else if r.chance(1, 8) { ArgValue::Empty } else { ArgValue::Value(r.f64()) } },
        2 => Argument::Boolean { name, value: if b { ArgValue::Block(block(r, depth - 1, true)) } else if r.chance(1, 8) { ArgValue::Empty } else { ArgValue::Value(r.bool()) } },
        _ => Argument::Menu { name: pname(r), value: if b { ArgValue::Block(block(r, depth - 1, true)) } else { ArgValue::Value(lit(r)) } },
    }
}
fn block_type(r: &mut Rng) -> BlockType {
    use ArgumentBlockReturnType as A;
    match r.below(11) {
        0 => BlockType::Argument(A::Boolean), 1 => BlockType::Argument(A::String), 2 => BlockType::Argument(A::Number), 3 => BlockType::Argument(A::View { type_name: r.text() }), 4 => BlockType::Argument(A::Component { type_name: r.text() }),
        5 => BlockType::Argument(A::List { inner_type: ListItem::String }), 6 => BlockType::Argument(A::List { inner_type: ListItem::Number }), 7 => BlockType::Control(BlockControl::OneNest), 8 => BlockType::Control(BlockControl::TwoNest), 9 => BlockType::Control(BlockControl::EndingBlock), _ => BlockType::Regular
    }
}
pub fn block(r: &mut Rng, depth: usize, arg: bool) -> Block {
    let n = 1 + r.below(4);
    let items = (0..n).map(|_| if r.bool() { SpecItem::Text(word(r)) } else { SpecItem::Parameter(argument(r, depth)) }).collect();
    let mut op_code = r.text();
    if arg && (op_code == "true" || op_code == "false") { op_code.push('_') }
    let mut ss = |r: &mut Rng| if depth > 0 && r.chance(1, 3) { Some(nonempty(r, depth - 1, 3)) } else { None };
    let (a, b) = (ss(r), ss(r));
    Block { sub_stack1: a, sub_stack2: b, color: color(r), op_code, content: BlockContent { items }, block_type: block_type(r) }
}
fn nonempty(r: &mut Rng, depth: usize, n: usize) -> Blocks { let k = 1 + r.below(n); Blocks((0..k).map(|_| block(r, depth, false)).collect()) }
pub fn blocks(r: &mut Rng, depth: usize, n: usize) -> Blocks { if r.chance(1, 8) { Blocks(vec![]) } else { nonempty(r, depth, n) } }
/// content without values, as a more block spec has it
pub fn content(r: &mut Rng, n: usize) -> BlockContent {
    let k = 1 + r.below(n);
    BlockContent { items: (0..k).map(|_| if r.bool() { SpecItem::Text(word(r)) } else {
        let name = if r.bool() { Some(pname(r)) } else { None };
        SpecItem::Parameter(match r.below(4) { 0 => Argument::String { name, value: ArgValue::Empty }, 1 => Argument::Number { name, value: ArgValue::Empty }, 2 => Argument::Boolean { name, value: ArgValue::Empty }, _ => Argument::Menu { name: pname(r), value: ArgValue::Empty } })
    }).collect() }
}

// ---------------------------------------------------------------- C15
#[derive(Debug, Clone, PartialEq)]
enum Val { Empty, Text(String), Num(f64), Bool(bool), Ref(u32) }
#[derive(Debug, Clone, PartialEq)]
enum Item { Word(String), Par(char, Option<String>, Val) }
fn view_val<T: std::fmt::Debug + Clone + PartialEq>(v: &ArgValue<T>, f: impl Fn(&T) -> Val) -> Result<Val, String> {
    Ok(match v { ArgValue::Empty => Val::Empty, ArgValue::Value(x) => f(x), ArgValue::BlockPlaceholder { block_id } => Val::Ref(*block_id), ArgValue::Block(_) => return Err("a block appeared".into()) })
}
fn view_items(c: &BlockContent) -> Result<Vec<Item>, String> {
    c.items.iter().map(|i| Ok(match i {
        SpecItem::Text(t) => Item::Word(t.clone()),
        SpecItem::Parameter(Argument::String { name, value }) => Item::Par('s', name.clone(), view_val(value, |x| Val::Text(x.clone()))?),
        SpecItem::Parameter(Argument::Number { name, value }) => Item::Par('d', name.clone(), view_val(value, |x| Val::Num(*x))?),
        SpecItem::Parameter(Argument::Boolean { name, value }) => Item::Par('b', name.clone(), view_val(value, |x| Val::Bool(*x))?),
        SpecItem::Parameter(Argument::Menu { name, value }) => Item::Par('m', Some(name.clone()), view_val(value, |x| Val::Text(x.clone()))?),
    })).collect()
}
/// independent reading of one spec word; None = malformed; the flag says whether it is in the canonical form
fn read_token(s: &str) -> (Option<Item>, bool) {
    let ch: Vec<char> = s.chars().collect();
    if ch.first() != Some(&'%') || ch.len() == 1 { return (Some(Item::Word(s.to_string())), true) }
    if !"sdbm".contains(ch[1]) { return (None, true) }
    let name = if ch.len() > 3 && ch[2] == '.' { Some(ch[3..].iter().collect::<String>()) } else { None };
    let canonical = ch.len() == 2 || name.is_some();
    if ch[1] == 'm' && name.is_none() { return (None, canonical) }
    (Some(Item::Par(ch[1], name, Val::Empty)), canonical)
}
fn read_value(k: char, s: &str) -> Option<Val> {
    if let Some(rest) = s.strip_prefix('@') {
        let digits = rest.strip_prefix('+').unwrap_or(rest);
        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) { return None }
        let mut n: u64 = 0;
        for b in digits.bytes() { n = n * 10 + (b - b'0') as u64; if n > u32::MAX as u64 { return None } }
        return Some(Val::Ref(n as u32))
    }
    Some(match k {
        's' | 'm' => Val::Text(s.to_string()),
        'd' => if s.is_empty() { Val::Empty } else { Val::Num(s.parse::<f64>().ok()?) },
        _ => match s { "" => Val::Empty, "true" => Val::Bool(true), "false" => Val::Bool(false), _ => return None }
    })
}
fn read_content(spec: &str, args: Option<&[String]>) -> Option<Vec<Item>> {
    let mut out = vec![]; let mut k = 0;
    for w in spec.split(' ') {
        match read_token(w).0? {
            Item::Par(c, n, _) => {
                let v = match args { None => Val::Empty, Some(a) => { let v = read_value(c, a.get(k)?)?; k += 1; v } };
                out.push(Item::Par(c, n, v))
            }
            x => out.push(x)
        }
    }
    Some(out)
}
fn num_nan(v: &[Item]) -> bool { v.iter().any(|i| matches!(i, Item::Par(_, _, Val::Num(x)) if x.is_nan())) }
pub fn arg_text(a: &Argument) -> String {
    fn t<T: std::fmt::Debug + Clone + PartialEq + ToString>(v: &ArgValue<T>) -> String { match v { ArgValue::Value(x) => x.to_string(), ArgValue::BlockPlaceholder { block_id } => format!("@{}", block_id), ArgValue::Empty => String::new(), ArgValue::Block(_) => "?".into() } }
    match a { Argument::String { value, .. } => t(value), Argument::Number { value, .. } => t(value), Argument::Boolean { value, .. } => t(value), Argument::Menu { value, .. } => t(value) }
}
fn c15_check(c: &mut Ctx, spec: String, args: Vec<String>) {
    c.case("content", &format!("{:?} {:?}", spec, args), || {
        let canonical = spec.split(' ').all(|w| read_token(w).1);
        let with = BlockContent::parse(spec.clone(), args.clone());
        let without = BlockContent::parse_wo_params(&spec);
        let (wm, wo) = (read_content(&spec, Some(&args)), read_content(&spec, None));
        match (&without, &wo) {
            (Ok(a), Some(b)) => {
                same!("items", view_items(a)?, *b);
                if canonical { same!("printed", a.to_string(), spec) }
                same!("number of arguments", a.get_args().len(), b.iter().filter(|i| matches!(i, Item::Par(..))).count());
            }
            (Err(_), None) => {}
            // a token like %dx is neither canonical nor malformed by the statement
            (a, b) => if canonical { return Err(format!("without arguments: got {:?}, expected {:?}", a, b)) }
        }
        match (with, &wm) {
            (Ok(a), Some(b)) => {
                if !num_nan(b) { same!("items", view_items(&a)?, *b) }
                if canonical { same!("printed", a.to_string(), spec) }
                let names: Vec<_> = a.get_args().into_iter().cloned().collect();
                let mut am = a.clone();
                same!("number of arguments", am.get_args_mut().len(), names.len());
                let (rest, taken) = a.clone().take_args();
                if !num_nan(b) { same!("taken arguments", taken, names); }
                for (i, x) in taken.iter().enumerate() {
                    let orig = &args[i];
                    // a number may be spelled differently, but denotes the same value; + in references too
                    match x { Argument::Number { value: ArgValue::Value(v), .. } => { if !v.is_nan() { same!("number", arg_text(x).parse::<f64>().ok(), Some(*v)) } }
                        _ if orig.starts_with('@') => {}
                        _ => same!("argument text", arg_text(x), *orig) }
                }
                // the remaining content has the same spec with empty arguments, and takes the arguments again
                same!("emptied", view_items(&rest)?, wo.clone().unwrap());
                if canonical { same!("printed emptied", rest.to_string(), spec) }
                let again = rest.apply_args(args.clone()).map_err(|x| format!("apply_args: {:?}", x))?;
                if !num_nan(b) { same!("applied", again, a) }
                // apply_args never replaces an argument that is already there
                if !num_nan(b) && !b.iter().any(|i| matches!(i, Item::Par(_, _, Val::Empty))) {
                    let kept = a.clone().apply_args(vec![]).map_err(|x| format!("apply_args on full content: {:?}", x))?;
                    same!("kept", kept, a);
                }
            }
            (Err(_), None) => {
                if let Ok(a) = without { ensure!(a.apply_args(args.clone()).is_err() || !canonical, "apply_args accepted what parse refused") }
            }
            (a, b) => if canonical { return Err(format!("got {:?}, expected {:?}", a, b)) }
        }
        Ok(())
    });
}
fn c15_fixed(c: &mut Ctx) {
    let toks = ["", "%", "%%", "%s", "%d", "%b", "%m", "%x", "%s.", "%s.a", "%d.num", "%b.flag", "%m.view", "%m.", "%s.é", "%é", "%é.x", "%sé", "%s.a.b", "a", "%s.%s", "%S", "% s", "%\u{301}", "%.", "%..", "😀%s", "%😀.a"];
    let vals: Vec<Vec<String>> = vec![vec![], vec!["x".into()], vec!["".into()], vec!["@".into()], vec!["@é".into()], vec!["@5".into()], vec!["@-1".into()], vec!["@4294967296".into()], vec!["1.5".into()], vec!["true".into()], vec!["True".into()], vec!["é".into(), "1".into()], vec!["1".into(), "false".into()], vec!["@4294967295".into(), "@0".into()]];
    for a in toks { for v in &vals { c15_check(c, a.to_string(), v.clone()); for b in toks { c15_check(c, format!("{} {}", a, b), v.clone()) } } }
}
fn c15(c: &mut Ctx) {
    let n = 1 + c.rng.below(c.size + 2);
    let (mut spec, mut args) = (vec![], vec![]);
    for _ in 0..n {
        if c.rng.bool() { let w = if c.rng.chance(1, 10) { c.rng.text().replace(' ', "") } else { word(&mut c.rng) }; spec.push(w); continue }
        let k = *c.rng.pick(&['s', 'd', 'b', 'm']);
        let nm = if k == 'm' || c.rng.bool() { format!(".{}", pname(&mut c.rng)) } else { String::new() };
        spec.push(format!("%{}{}", k, nm));
        args.push(match (c.rng.below(4), k) { (0, _) => format!("@{}", c.rng.u32()), (_, 'd') => c.rng.f64().to_string(), (_, 'b') => c.rng.bool().to_string(), _ => c.rng.text() });
    }
    if c.rng.chance(1, 6) { args.pop(); }
    if c.rng.chance(1, 8) { let t = c.rng.text(); args.push(t) }
    if !args.is_empty() && c.rng.chance(1, 6) { let i = c.rng.below(args.len()); args[i] = c.rng.text() }
    c15_check(c, spec.join(" "), args);
}

// ---------------------------------------------------------------- C16 / C17
fn save(b: &Blocks) -> BlockContainer { b.clone().into() }
fn c16_check(c: &mut Ctx, b: Blocks) {
    c.case("save and reload", &d(&b), || {
        let cont = save(&b);
        let back = Blocks::try_from(cont).map_err(|x| format!("reading failed: {:?}", x))?;
        same!("blocks", back, b);
        Ok(())
    });
}
fn simple(op: &str, items: Vec<SpecItem>) -> Block { Block { sub_stack1: None, sub_stack2: None, color: swrs::color::Color::from(1), op_code: op.into(), content: BlockContent { items }, block_type: BlockType::Regular } }
fn fixed_trees() -> Vec<Blocks> {
    let t = |s: &str| SpecItem::Text(s.to_string());
    let leaf = |s: &str| simple(s, vec![t(s)]);
    let sarg = |b: Block| SpecItem::Parameter(Argument::String { name: None, value: ArgValue::Block(b) });
    let darg = |b: Block| SpecItem::Parameter(Argument::Number { name: Some("n".into()), value: ArgValue::Block(b) });
    let barg = |b: Block| SpecItem::Parameter(Argument::Boolean { name: None, value: ArgValue::Block(b) });
    let marg = |b: Block| SpecItem::Parameter(Argument::Menu { name: "v".into(), value: ArgValue::Block(b) });
    let lb = |v: bool| SpecItem::Parameter(Argument::Boolean { name: None, value: ArgValue::Value(v) });
    let mut out = vec![Blocks(vec![]), Blocks(vec![leaf("a")]), Blocks(vec![leaf("a"), leaf("b"), leaf("c")])];
    for n in 1..=4 { // deep argument chains of each kind
        for k in 0..4 {
            let mut b = leaf("x");
            for i in 0..n { let a = match k { 0 => sarg(b), 1 => darg(b), 2 => barg(b), _ => marg(b) }; b = simple(&format!("n{}", i), vec![t("f"), a]); }
            out.push(Blocks(vec![b.clone(), leaf("after")]));
            out.push(Blocks(vec![simple("two", vec![sarg(b.clone()), darg(b.clone()), barg(b.clone()), marg(b)]), leaf("z")]));
        }
    }
    out.push(Blocks(vec![simple("t", vec![lb(true), lb(false), lb(true)]), leaf("b")]));
    let nest = |b: Block, a: Option<Vec<Block>>, e: Option<Vec<Block>>| { let mut b = b; b.sub_stack1 = a.map(Blocks); b.sub_stack2 = e.map(Blocks); b };
    let inner = nest(simple("if", vec![lb(true)]), Some(vec![leaf("i1"), leaf("i2")]), None);
    for (a, e) in [(Some(vec![leaf("a"), leaf("b")]), None), (None, Some(vec![leaf("a"), leaf("b")])), (Some(vec![inner.clone(), leaf("b")]), Some(vec![leaf("c"), inner.clone()])), (Some(vec![inner.clone()]), Some(vec![inner.clone(), inner.clone(), leaf("q")]))] {
        out.push(Blocks(vec![leaf("first"), nest(simple("w", vec![t("x"), darg(inner.clone())]), a.clone(), e.clone()), leaf("last")]));
        out.push(Blocks(vec![nest(leaf("only"), a.clone(), e.clone())]));
        out.push(Blocks(vec![simple("host", vec![marg(nest(leaf("argnest"), a, e)), lb(false)]), leaf("n")]));
    }
    out
}
fn c16_fixed(c: &mut Ctx) { for b in fixed_trees() { c16_check(c, b) } }
fn gen_tree(c: &mut Ctx) -> Blocks { let depth = 1 + c.rng.below(c.size.min(4)); let n = 1 + c.rng.below(4); blocks(&mut c.rng, depth, n) }
fn c16(c: &mut Ctx) { let b = gen_tree(c); c16_check(c, b) }

fn count_block(b: &Block) -> usize {
    let mut n = 1;
    for s in [&b.sub_stack1, &b.sub_stack2] { if let Some(s) = s { n += s.0.iter().map(count_block).sum::<usize>() } }
    for i in &b.content.items { if let SpecItem::Parameter(a) = i {
        fn g<T: std::fmt::Debug + Clone + PartialEq>(v: &ArgValue<T>) -> usize { if let ArgValue::Block(b) = v { count_block(b) } else { 0 } }
        n += match a { Argument::String { value, .. } => g(value), Argument::Number { value, .. } => g(value), Argument::Menu { value, .. } => g(value), Argument::Boolean { value, .. } => if let ArgValue::Value(_) = value { 1 } else { g(value) } };
    } }
    n
}
fn c17_check(c: &mut Ctx, b: Blocks) {
    c.case("container", &d(&b), || {
        let v = save(&b).0;
        for (i, x) in v.iter().enumerate() { same!("id", x.id, (10 + i).to_string()) }
        same!("number of blocks", v.len(), b.0.iter().map(count_block).sum::<usize>());
        let mut seen: BTreeMap<i64, usize> = BTreeMap::new();
        let (lo, hi) = (10i64, 10 + v.len() as i64);
        for x in &v {
            for (what, p) in [("next", x.next_block), ("substack 1", x.sub_stack1), ("substack 2", x.sub_stack2)] {
                if p == -1 { continue }
                ensure!((p as i64) >= lo && (p as i64) < hi, "{} of block {} is {}, no block of the container", what, x.id, p);
                *seen.entry(p as i64).or_default() += 1;
            }
            // argument references: parameters at parameter positions
            let kinds: Vec<char> = x.spec.split(' ').filter_map(|w| match read_token(w).0 { Some(Item::Par(k, _, _)) => Some(k), _ => None }).collect();
            same!("number of parameters", x.parameters.len(), kinds.len());
            for p in &x.parameters { if let Some(n) = p.strip_prefix('@') {
                let n: i64 = n.parse().map_err(|_| format!("reference {:?} of block {}", p, x.id))?;
                ensure!(n >= lo && n < hi, "argument {} of block {} names no block of the container", p, x.id);
                *seen.entry(n).or_default() += 1;
            } }
        }
        for n in lo..hi { let k = seen.get(&n).copied().unwrap_or(0); ensure!(k == if n == lo { 0 } else { 1 }, "block {} is referenced {} times", n, k) }
        // sequences chain
        fn chain(v: &[PBlock], start: i32, seq: &[Block]) -> R {
            if seq.is_empty() { return if v.is_empty() || start == -1 { Ok(()) } else { Err("an empty sequence got a reference".into()) } }
            let mut cur = start;
            for (i, b) in seq.iter().enumerate() {
                let x = v.get((cur - 10) as usize).ok_or_else(|| format!("sequence breaks off at {}", cur))?;
                same!("op code in sequence", x.op_code, b.op_code);
                same!("colour", x.color, b.color);
                for (p, s) in [(x.sub_stack1, &b.sub_stack1), (x.sub_stack2, &b.sub_stack2)] { match s { None => same!("absent substack", p, -1), Some(s) => { ensure!(p != -1, "substack of {} missing", x.id); chain(v, p, &s.0)? } } }
                if i + 1 == seq.len() { same!("end of sequence", x.next_block, -1) } else { cur = x.next_block }
            }
            Ok(())
        }
        chain(&v, if v.is_empty() { -1 } else { 10 }, &b.0)
    });
}
fn c16_fixed17(c: &mut Ctx) { for b in fixed_trees() { c17_check(c, b) } }
fn c17(c: &mut Ctx) { let b = gen_tree(c); c17_check(c, b) }

// ---------------------------------------------------------------- C18
#[derive(Debug, Clone, PartialEq)]
enum MVal { Plain(Val), Blk(Box<MBlock>) }
#[derive(Debug, Clone, PartialEq)]
struct MBlock { op: String, color: String, kind: (String, String), items: Vec<(Item, Option<MVal>)>, s1: Option<Vec<MBlock>>, s2: Option<Vec<MBlock>> }
struct Rd<'a> { map: BTreeMap<u32, &'a PBlock>, used: BTreeSet<u32> }
fn parse_id(s: &str) -> Option<u32> { match read_value('s', &format!("@{}", s)) { Some(Val::Ref(n)) => Some(n), _ => None } }
fn kind_of(t: &str, n: &str) -> Option<(String, String)> {
    Some((t.to_string(), match t { "v" | "p" => n.to_string(), "l" => if n == "List String" || n == "List Number" { n.to_string() } else { return None }, "b" | "s" | "d" | "c" | "e" | "f" | " " => String::new(), _ => return None }))
}
impl<'a> Rd<'a> {
    fn block(&mut self, id: u32) -> Option<MBlock> {
        let b = *self.map.get(&id)?;
        if !self.used.insert(id) { return None }
        let s1 = if b.sub_stack1 < 0 { None } else { Some(self.seq(b.sub_stack1 as u32)?) };
        let s2 = if b.sub_stack2 < 0 { None } else { Some(self.seq(b.sub_stack2 as u32)?) };
        let items = read_content(&b.spec, Some(&b.parameters))?;
        let mut out = vec![];
        for i in items {
            let v = match &i { Item::Par(k, _, Val::Ref(n)) => { let x = self.block(*n)?; Some(match (k, x.op.as_str()) { ('b', "true") => MVal::Plain(Val::Bool(true)), ('b', "false") => MVal::Plain(Val::Bool(false)), _ => MVal::Blk(Box::new(x)) }) } Item::Par(_, _, v) => Some(MVal::Plain(v.clone())), _ => None };
            let i = match i { Item::Par(k, n, _) => Item::Par(k, n, Val::Empty), x => x };
            out.push((i, v));
        }
        let kind = kind_of(&b.r#type, &b.type_name)?;
        Some(MBlock { op: b.op_code.clone(), color: d(&b.color), kind, items: out, s1, s2 })
    }
    fn seq(&mut self, start: u32) -> Option<Vec<MBlock>> {
        let (mut cur, mut out) = (start, vec![]);
        loop {
            let b = *self.map.get(&cur)?;
            if self.used.contains(&cur) { return None }
            out.push(self.block(cur)?);
            if b.next_block < 0 { return Some(out) }
            cur = b.next_block as u32;
        }
    }
}
fn model_read(v: &[PBlock]) -> Option<Vec<MBlock>> {
    let mut map = BTreeMap::new();
    for b in v { map.insert(parse_id(&b.id)?, b); }
    let Some(f) = v.first() else { return Some(vec![]) };
    Rd { map, used: BTreeSet::new() }.seq(parse_id(&f.id)?)
}
fn view_seq(b: &Blocks) -> Result<Vec<MBlock>, String> { b.0.iter().map(view_block).collect() }
fn view_block(b: &Block) -> Result<MBlock, String> {
    fn val<T: std::fmt::Debug + Clone + PartialEq>(v: &ArgValue<T>, f: impl Fn(&T) -> Val) -> Result<MVal, String> { Ok(match v { ArgValue::Block(b) => MVal::Blk(Box::new(view_block(b)?)), ArgValue::BlockPlaceholder { .. } => return Err("an unresolved reference is left".into()), ArgValue::Empty => MVal::Plain(Val::Empty), ArgValue::Value(x) => MVal::Plain(f(x)) }) }
    let items = b.content.items.iter().map(|i| Ok(match i {
        SpecItem::Text(t) => (Item::Word(t.clone()), None),
        SpecItem::Parameter(Argument::String { name, value }) => (Item::Par('s', name.clone(), Val::Empty), Some(val(value, |x| Val::Text(x.clone()))?)),
        SpecItem::Parameter(Argument::Number { name, value }) => (Item::Par('d', name.clone(), Val::Empty), Some(val(value, |x| Val::Num(*x))?)),
        SpecItem::Parameter(Argument::Boolean { name, value }) => (Item::Par('b', name.clone(), Val::Empty), Some(val(value, |x| Val::Bool(*x))?)),
        SpecItem::Parameter(Argument::Menu { name, value }) => (Item::Par('m', Some(name.clone()), Val::Empty), Some(val(value, |x| Val::Text(x.clone()))?)),
    })).collect::<Result<_, String>>()?;
    use ArgumentBlockReturnType as A;
    let k = match &b.block_type { BlockType::Regular => (" ", String::new()), BlockType::Argument(A::Boolean) => ("b", String::new()), BlockType::Argument(A::String) => ("s", String::new()), BlockType::Argument(A::Number) => ("d", String::new()),
        BlockType::Argument(A::View { type_name }) => ("v", type_name.clone()), BlockType::Argument(A::Component { type_name }) => ("p", type_name.clone()),
        BlockType::Argument(A::List { inner_type: ListItem::String }) => ("l", "List String".into()), BlockType::Argument(A::List { inner_type: ListItem::Number }) => ("l", "List Number".into()),
        BlockType::Control(BlockControl::OneNest) => ("c", String::new()), BlockType::Control(BlockControl::TwoNest) => ("e", String::new()), BlockType::Control(BlockControl::EndingBlock) => ("f", String::new()) };
    Ok(MBlock { op: b.op_code.clone(), color: d(&b.color), kind: (k.0.into(), k.1), items, s1: b.sub_stack1.as_ref().map(view_seq).transpose()?, s2: b.sub_stack2.as_ref().map(view_seq).transpose()? })
}
fn c18_check(c: &mut Ctx, v: Vec<PBlock>) {
    let brief: Vec<String> = v.iter().map(|b| format!("{{id {:?} next {} ss {} {} type {:?}/{:?} spec {:?} params {:?} op {:?}}}", b.id, b.next_block, b.sub_stack1, b.sub_stack2, b.r#type, b.type_name, b.spec, b.parameters, b.op_code)).collect();
    c.case("read", &brief.join(" "), || {
        match (Blocks::try_from(BlockContainer(v.clone())), model_read(&v)) {
            (Ok(a), Some(b)) => { let a = view_seq(&a)?; if format!("{:?}", a) != format!("{:?}", b) { return Err(format!("got {:?}, expected {:?}", a, b)) } Ok(()) }
            (Err(_), None) => Ok(()),
            (Ok(a), None) => Err(format!("must be an error, but read as {:?}", a)),
            (Err(x), Some(_)) => Err(format!("well formed, but failed with {:?}", x)),
        }
    });
}
fn pb(id: i64, next: i32, s1: i32, s2: i32, spec: &str, params: &[&str]) -> PBlock {
    PBlock { color: swrs::color::Color::from(7), id: id.to_string(), next_block: next, op_code: format!("op{}", id), parameters: params.iter().map(|s| s.to_string()).collect(), spec: spec.into(), sub_stack1: s1, sub_stack2: s2, r#type: " ".into(), type_name: "".into() }
}
fn c18_fixed(c: &mut Ctx) {
    c18_check(c, vec![]);
    // every reference graph over three blocks with pointers in {-1, 1, 2, 3, 4}
    let ps = [-1, 1, 2, 3, 4];
    for n1 in ps { for s1 in ps { for n2 in ps { for s2 in ps { for n3 in ps {
        c18_check(c, vec![pb(1, n1, s1, -1, "a", &[]), pb(2, n2, -1, s2, "b", &[]), pb(3, n3, -1, -1, "c", &[])]);
    } } } } }
    for a in ["@1", "@2", "@3", "@4", "@", "@x", "x", ""] { for b in ["@1", "@2", "@3", "@9", "v"] { for n in [-1, 2, 3] { for spec in ["%s", "%m.a", "%b", "%d"] {
        c18_check(c, vec![pb(1, n, -1, -1, spec, &[a]), pb(2, -1, -1, -1, "q %s", &[b]), pb(3, -1, -1, -1, "c", &[])]);
    } } } }
    for id in ["", "x", "-1", "1.0", " 1", "4294967296", "é"] { let mut b = pb(1, -1, -1, -1, "a", &[]); b.id = id.into(); c18_check(c, vec![b.clone()]); c18_check(c, vec![pb(1, -1, -1, -1, "a", &[]), b]) }
    for t in [" ", "", "v", "p", "b", "s", "d", "l", "c", "e", "f", "x", "ll", "  "] { for n in ["", "List String", "List Number", "List Map", "list string", "é"] { let mut b = pb(1, -1, -1, -1, "a", &[]); b.r#type = t.into(); b.type_name = n.into(); c18_check(c, vec![b]) } }
    for (k, op) in [("%b", "true"), ("%b", "false"), ("%s", "true"), ("%b", "True"), ("%b", "")] { let mut b = pb(2, -1, -1, -1, "x", &[]); b.op_code = op.into(); c18_check(c, vec![pb(1, -1, -1, -1, k, &["@2"]), b]) }
    for p in [i32::MIN, -2, i32::MAX] { c18_check(c, vec![pb(1, p, -1, -1, "a", &[])]); c18_check(c, vec![pb(1, -1, p, -1, "a", &[])]); c18_check(c, vec![pb(1, -1, -1, p, "a", &[])]) }
}
fn c18(c: &mut Ctx) {
    let mut v: Vec<PBlock> = if c.rng.chance(1, 4) {
        let n = c.rng.below(6);
        (0..n).map(|i| { let mut b = pblock(&mut c.rng); b.id = (10 + i).to_string(); for p in [&mut b.next_block, &mut b.sub_stack1, &mut b.sub_stack2] { *p = if c.rng.bool() { -1 } else { 9 + c.rng.below(n + 2) as i32 } } b.r#type = c.rng.pick(&[" ", "b", "s", "c"]).to_string(); b }).collect()
    } else { save(&gen_tree(c)).0 };
    let n = v.len();
    for _ in 0..c.rng.below(4) {
        if n == 0 { break }
        let i = c.rng.below(n);
        let rf = 9 + c.rng.below(n + 2) as i32;
        match c.rng.below(12) {
            0 => v[i].next_block = rf, 1 => v[i].sub_stack1 = rf, 2 => v[i].sub_stack2 = rf, 3 => v[i].next_block = -1 - c.rng.below(3) as i32,
            4 => { let k = v[i].parameters.len(); if k > 0 { let j = c.rng.below(k); v[i].parameters[j] = format!("@{}", rf) } }
            5 => { v[i].parameters.pop(); } 6 => v[i].spec = c.rng.name(&[]), 7 => { let w = word(&mut c.rng); v[i].spec.push_str(&format!(" %s {}", w)); v[i].parameters.push(format!("@{}", rf)) }
            8 => v[i].r#type = c.rng.pick(&["", "x", "l", "v", "é"]).to_string(), 9 => v[i].type_name = c.rng.text(),
            10 => { let j = c.rng.below(n); v.swap(i, j) }
            _ => { let k = v[i].parameters.len(); if k > 0 { let j = c.rng.below(k); v[i].parameters[j] = c.rng.text() } }
        }
    }
    c18_check(c, v);
}
