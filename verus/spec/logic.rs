pub use crate::parser::logic::{Logic as PLogic, ScreenLogic, Block, BlockContainer, BlockContainerHeader};
pub use crate::parser::logic::variable::{Variable, VariablePool, VariableType};
pub use crate::parser::logic::list_variable::{ListVariable, ListVariablePool};
pub use crate::parser::logic::component::{Component, ComponentPool};
pub use crate::parser::logic::event::{Event as PEvent, EventPool};
pub use crate::parser::logic::more_block::{MoreBlock, MoreBlockPool};

// ---------------------------------------------------------------- the items
pub open spec fn colon() -> Seq<char> { seq![':'] }
pub open spec fn vt_no(t: VariableType) -> u8 { match t { VariableType::Boolean => 0, VariableType::Integer => 1, VariableType::String => 2, VariableType::HashMap => 3 } }
pub open spec fn vt_of(n: u8) -> Option<VariableType> { if n == 0 { Some(VariableType::Boolean) } else if n == 1 { Some(VariableType::Integer) } else if n == 2 { Some(VariableType::String) } else if n == 3 { Some(VariableType::HashMap) } else { None } }
/// type number, colon, name
pub open spec fn typed_read(s: Seq<char>) -> Option<(VariableType, String)> {
    match find(s, colon()) { None => None, Some(i) => match <u8 as VpParse>::of_text(s.take(i)) { None => None, Some(n) => match vt_of(n) { None => None, Some(t) => Some((t, string_of(s.skip(i + 1)))) } } }
}
pub open spec fn typed_text(t: VariableType, name: Seq<char>) -> Seq<char> { dec(vt_no(t) as int) + colon() + name }
pub open spec fn var_read(s: Seq<char>) -> Option<Variable> { match typed_read(s) { Some(p) => Some(Variable { name: p.1, r#type: p.0 }), None => None } }
pub open spec fn var_text(v: Variable) -> Seq<char> { typed_text(v.r#type, v.name@) }
pub open spec fn list_read(s: Seq<char>) -> Option<ListVariable> { match typed_read(s) { Some(p) => Some(ListVariable { name: p.1, r#type: p.0 }), None => None } }
pub open spec fn list_text(v: ListVariable) -> Seq<char> { typed_text(v.r#type, v.name@) }
pub open spec fn func_read(s: Seq<char>) -> Option<MoreBlock> { match find(s, colon()) { None => None, Some(i) => Some(MoreBlock { id: string_of(s.take(i)), spec: string_of(s.skip(i + 1)) }) } }
pub open spec fn func_text(v: MoreBlock) -> Seq<char> { v.id@ + colon() + v.spec@ }
// readers of one line
pub open spec fn rd_var() -> spec_fn(Seq<char>) -> Option<Variable> { |s: Seq<char>| var_read(s) }
pub open spec fn rd_list() -> spec_fn(Seq<char>) -> Option<ListVariable> { |s: Seq<char>| list_read(s) }
pub open spec fn rd_func() -> spec_fn(Seq<char>) -> Option<MoreBlock> { |s: Seq<char>| func_read(s) }
pub open spec fn rd_json<T: VpCodec>() -> spec_fn(Seq<char>) -> Option<T> { |s: Seq<char>| jread::<T>(s) }

// ---------------------------------------------------------------- the pools: one item per line, up to a blank line
pub open spec fn pool_run<T>(ls: Seq<Seq<char>>, acc: Seq<T>, f: spec_fn(Seq<char>) -> Option<T>) -> Option<(Seq<T>, Seq<Seq<char>>)> decreases ls.len() {
    if ls.len() == 0 { Some((acc, ls)) } else if ls[0].len() == 0 { Some((acc, ls.skip(1))) } else { match f(ls[0]) { Some(x) => pool_run(ls.skip(1), acc.push(x), f), None => None } }
}
pub proof fn pool_run_len<T>(ls: Seq<Seq<char>>, acc: Seq<T>, f: spec_fn(Seq<char>) -> Option<T>) ensures pool_run(ls, acc, f) matches Some(r) ==> r.1.len() <= ls.len() decreases ls.len()
{ if ls.len() > 0 && ls[0].len() > 0 { if let Some(x) = f(ls[0]) { pool_run_len(ls.skip(1), acc.push(x), f); } } }
pub open spec fn e_var(x: Variable) -> (String, Variable) { (x.name, x) }
pub open spec fn e_list(x: ListVariable) -> (String, ListVariable) { (x.name, x) }
pub open spec fn e_func(x: MoreBlock) -> (String, MoreBlock) { (x.id, x) }
pub open spec fn map_var(xs: Seq<Variable>) -> Seq<(String, Variable)> { put_all(Seq::empty(), xs.map_values(|x: Variable| e_var(x))) }
pub open spec fn map_list(xs: Seq<ListVariable>) -> Seq<(String, ListVariable)> { put_all(Seq::empty(), xs.map_values(|x: ListVariable| e_list(x))) }
pub open spec fn map_func(xs: Seq<MoreBlock>) -> Seq<(String, MoreBlock)> { put_all(Seq::empty(), xs.map_values(|x: MoreBlock| e_func(x))) }
pub proof fn map_var_push(xs: Seq<Variable>, x: Variable) ensures map_var(xs.push(x)) == lhm_put(map_var(xs), x.name, x)
{ let s = xs.push(x).map_values(|x: Variable| e_var(x)); assert(s.drop_last() =~= xs.map_values(|x: Variable| e_var(x))); assert(s.last() == e_var(x)); }
pub proof fn map_list_push(xs: Seq<ListVariable>, x: ListVariable) ensures map_list(xs.push(x)) == lhm_put(map_list(xs), x.name, x)
{ let s = xs.push(x).map_values(|x: ListVariable| e_list(x)); assert(s.drop_last() =~= xs.map_values(|x: ListVariable| e_list(x))); assert(s.last() == e_list(x)); }
pub proof fn map_func_push(xs: Seq<MoreBlock>, x: MoreBlock) ensures map_func(xs.push(x)) == lhm_put(map_func(xs), x.id, x)
{ let s = xs.push(x).map_values(|x: MoreBlock| e_func(x)); assert(s.drop_last() =~= xs.map_values(|x: MoreBlock| e_func(x))); assert(s.last() == e_func(x)); }
pub type Lines = Seq<Seq<char>>;
pub open spec fn vars_run(ls: Lines) -> Option<(VariablePool, Lines)> { match pool_run(ls, Seq::empty(), rd_var()) { Some(r) => Some((VariablePool(lhm_of(map_var(r.0))), r.1)), None => None } }
pub open spec fn lists_run(ls: Lines) -> Option<(ListVariablePool, Lines)> { match pool_run(ls, Seq::empty(), rd_list()) { Some(r) => Some((ListVariablePool(lhm_of(map_list(r.0))), r.1)), None => None } }
pub open spec fn funcs_run(ls: Lines) -> Option<(MoreBlockPool, Lines)> { match pool_run(ls, Seq::empty(), rd_func()) { Some(r) => Some((MoreBlockPool(lhm_of(map_func(r.0))), r.1)), None => None } }
pub open spec fn comps_run(ls: Lines) -> Option<(ComponentPool, Lines)> { match pool_run(ls, Seq::empty(), rd_json::<Component>()) { Some(r) => Some((ComponentPool(vec_of(r.0)), r.1)), None => None } }
pub open spec fn events_run(ls: Lines) -> Option<(EventPool, Lines)> { match pool_run(ls, Seq::empty(), rd_json::<PEvent>()) { Some(r) => Some((EventPool(vec_of(r.0)), r.1)), None => None } }
pub open spec fn code_run(ls: Lines) -> Option<(BlockContainer, Lines)> { match pool_run(ls, Seq::empty(), rd_json::<Block>()) { Some(r) => Some((BlockContainer(vec_of(r.0)), r.1)), None => None } }
pub open spec fn one<T>(r: Option<(T, Lines)>) -> Option<T> { match r { Some(p) => Some(p.0), None => None } }
// what is written
pub open spec fn vals<V>(s: Seq<(String, V)>) -> Seq<V> { s.map_values(|e: (String, V)| e.1) }
pub open spec fn var_lines(p: VariablePool) -> Lines { vals(p.0@).map_values(|v: Variable| var_text(v)) }
pub open spec fn list_lines(p: ListVariablePool) -> Lines { vals(p.0@).map_values(|v: ListVariable| list_text(v)) }
pub open spec fn func_lines(p: MoreBlockPool) -> Lines { vals(p.0@).map_values(|v: MoreBlock| func_text(v)) }
pub open spec fn vars_text(p: VariablePool) -> Seq<char> { trim_s(prelines(var_lines(p))) }
pub open spec fn lists_text(p: ListVariablePool) -> Seq<char> { trim_s(prelines(list_lines(p))) }
pub open spec fn funcs_text(p: MoreBlockPool) -> Seq<char> { trim_s(prelines(func_lines(p))) }
pub open spec fn comps_text(p: ComponentPool) -> Seq<char> { trim_end_s(unlines(item_texts(p.0@))) }
pub open spec fn events_text(p: EventPool) -> Seq<char> { trim_s(prelines(item_texts(p.0@))) }
pub open spec fn code_text(p: BlockContainer) -> Seq<char> { unlines(item_texts(p.0@)) }
pub proof fn prelines_step(t: Lines, n: int) requires 0 <= n < t.len() ensures prelines(t.take(n + 1)) == prelines(t.take(n)) + nl() + t[n], unlines(t.take(n + 1)) == unlines(t.take(n)) + t[n] + nl()
{ assert(t.take(n + 1).drop_last() =~= t.take(n)); }

// ---------------------------------------------------------------- the sections of a logic file
pub enum Sec { Vars(String, VariablePool), Lists(String, ListVariablePool), Comps(String, ComponentPool), Events(String, EventPool), Funcs(String, MoreBlockPool), Code(String, String, BlockContainer) }
pub open spec fn sec_name(s: Sec) -> String { match s { Sec::Vars(n, _) => n, Sec::Lists(n, _) => n, Sec::Comps(n, _) => n, Sec::Events(n, _) => n, Sec::Funcs(n, _) => n, Sec::Code(n, _, _) => n } }
pub open spec fn sec_on(l: ScreenLogic, s: Sec) -> ScreenLogic {
    match s {
        Sec::Vars(_, p) => ScreenLogic { variables: Some(p), ..l }, Sec::Lists(_, p) => ScreenLogic { list_variables: Some(p), ..l }, Sec::Comps(_, p) => ScreenLogic { components: Some(p), ..l },
        Sec::Events(_, p) => ScreenLogic { events: Some(p), ..l }, Sec::Funcs(_, p) => ScreenLogic { more_blocks: Some(p), ..l },
        Sec::Code(_, c, b) => ScreenLogic { block_containers: lhm_of(lhm_put(l.block_containers@, c, b)), ..l },
    }
}
pub type Logics = Seq<(String, ScreenLogic)>;
pub open spec fn logic_at(st: Logics, n: String) -> ScreenLogic { match lhm_get(st, n) { Some(l) => l, None => empty_logic(n) } }
pub open spec fn put_sec(st: Logics, s: Sec) -> Logics { lhm_put(st, sec_name(s), sec_on(logic_at(st, sec_name(s)), s)) }
pub open spec fn cut(l: Seq<char>, suffix: Seq<char>) -> String { string_of(l.take(l.len() - suffix.len())) }
/// the header of a block container: everything up to the first .java_, and what follows up to the next
pub open spec fn head_read(s: Seq<char>) -> Option<(String, String)> {
    let parts = split(s, ".java_"@);
    if starts(s, "@"@) && parts.len() >= 2 { Some((string_of(parts[0].skip(1)), string_of(parts[1]))) } else { None }
}
pub open spec fn sec_read(ls: Lines) -> Option<(Sec, Lines)> {
    let (l, t) = (ls[0].skip(1), ls.skip(1));
    if ends(l, ".java_var"@) { match vars_run(t) { Some(r) => Some((Sec::Vars(cut(l, ".java_var"@), r.0), r.1)), None => None } }
    else if ends(l, ".java_list"@) { match lists_run(t) { Some(r) => Some((Sec::Lists(cut(l, ".java_list"@), r.0), r.1)), None => None } }
    else if ends(l, ".java_components"@) { match comps_run(t) { Some(r) => Some((Sec::Comps(cut(l, ".java_components"@), r.0), r.1)), None => None } }
    else if ends(l, ".java_events"@) { match events_run(t) { Some(r) => Some((Sec::Events(cut(l, ".java_events"@), r.0), r.1)), None => None } }
    else if ends(l, ".java_func"@) { match funcs_run(t) { Some(r) => Some((Sec::Funcs(cut(l, ".java_func"@), r.0), r.1)), None => None } }
    else { match head_read(ls[0]) { Some(h) => match code_run(t) { Some(r) => Some((Sec::Code(h.0, h.1, r.0), r.1)), None => None }, None => None } }
}
pub open spec fn logic_run(ls: Lines, st: Logics) -> Option<Logics> decreases ls.len() {
    if ls.len() == 0 || !starts(ls[0], "@"@) { Some(st) } else { match sec_read(ls) { Some(r) => if r.1.len() < ls.len() { logic_run(r.1, put_sec(st, r.0)) } else { None }, None => None } }
}
pub open spec fn logic_read(s: Seq<char>) -> Option<PLogic> { match logic_run(lines(s), Seq::empty()) { Some(r) => Some(PLogic { screens: lhm_of(r) }), None => None } }
// what is written
pub open spec fn code_texts(name: Seq<char>, bs: Seq<(String, BlockContainer)>) -> Seq<char> decreases bs.len() {
    if bs.len() == 0 { Seq::empty() } else { code_texts(name, bs.drop_last()) + "@"@ + name + ".java_"@ + bs.last().0@ + nl() + code_text(bs.last().1) + nl() }
}
/// the sections of one kind of one screen
pub open spec fn own_text(s: ScreenLogic, k: int) -> Lines {
    if k == 0 { match s.variables { Some(p) => seq!["@"@ + s.name@ + ".java_var\n"@ + vars_text(p)], None => seq![] } }
    else if k == 1 { match s.list_variables { Some(p) => seq!["@"@ + s.name@ + ".java_list\n"@ + lists_text(p)], None => seq![] } }
    else if k == 2 { match s.components { Some(p) => seq!["@"@ + s.name@ + ".java_components\n"@ + comps_text(p)], None => seq![] } }
    else if k == 3 { match s.events { Some(p) => seq!["@"@ + s.name@ + ".java_events\n"@ + events_text(p)], None => seq![] } }
    else if k == 4 { match s.more_blocks { Some(p) => seq!["@"@ + s.name@ + ".java_func\n"@ + funcs_text(p)], None => seq![] } }
    else { let t = code_texts(s.name@, s.block_containers@); if t.len() == 0 { seq![] } else { seq![t] } }
}
pub open spec fn sect(ss: Logics, k: int) -> Lines decreases ss.len() { if ss.len() == 0 { seq![] } else { sect(ss.drop_last(), k) + own_text(ss.last().1, k) } }
pub open spec fn all_sect(ss: Logics) -> Lines { sect(ss, 0) + sect(ss, 1) + sect(ss, 2) + sect(ss, 3) + sect(ss, 4) + sect(ss, 5) }
pub open spec fn glue(t: Lines) -> Seq<char> decreases t.len() { if t.len() == 0 { seq![] } else { glue(t.drop_last()) + nl() + nl() + trim_s(t.last()) } }
pub open spec fn logic_text(x: PLogic) -> Option<Seq<char>> { Some(trim_s(glue(all_sect(x.screens@)))) }
pub open spec fn strs(s: Seq<String>) -> Lines { s.map_values(|x: String| x@) }
pub proof fn strs_add(a: Seq<String>, b: Seq<String>) ensures strs(a + b) == strs(a) + strs(b) { assert(strs(a + b) =~= strs(a) + strs(b)); }
pub proof fn head_part(s: Seq<char>) ensures split(s, ".java_"@).len() >= 1, starts(s, "@"@) ==> split(s, ".java_"@)[0].len() >= 1 && ascii(split(s, ".java_"@)[0].take(1))
{
    reveal_strlit(".java_"); reveal_strlit("@");
    if starts(s, "@"@) {
        assert(s.take(1)[0] == s[0]);
        if 6 <= s.len() { assert(s.subrange(0, 6)[0] == s[0]); }
        let i = find(s, ".java_"@);
        find_at(s, ".java_"@, 0);
        if i is Some { assert(find_from(s, ".java_"@, 0) == find_from(s, ".java_"@, 1)); find_at(s, ".java_"@, 1); assert(split(s, ".java_"@)[0] == s.take(i->0)); }
    }
}
pub proof fn find_at(s: Seq<char>, p: Seq<char>, i: int) requires 0 <= i ensures find_from(s, p, i) matches Some(k) ==> i <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p && (forall|j: int| i <= j < k ==> #[trigger] s.subrange(j, j + p.len()) != p), find_from(s, p, i) is None && p.len() > 0 ==> forall|j: int| i <= j && j + p.len() <= s.len() ==> #[trigger] s.subrange(j, j + p.len()) != p decreases s.len() - i
{ if i + p.len() > s.len() || i >= s.len() {} else if s.subrange(i, i + p.len()) == p {} else { find_at(s, p, i + 1); } }
