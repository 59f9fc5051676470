// ---- C17: what the written references refer to
/// every block of a tree satisfies p
pub open spec fn every(b: ABlock, p: spec_fn(ABlock) -> bool) -> bool decreases b, 0nat { p(b) && items_every(b.content.items, b.content.items@.len(), p) && nest_every(b.sub_stack1, p) && nest_every(b.sub_stack2, p) }
pub open spec fn nest_every(o: Option<Blocks>, p: spec_fn(ABlock) -> bool) -> bool decreases o, 0nat { match o { None => true, Some(bs) => seq_every(bs.0, bs.0@.len(), p) } }
pub open spec fn seq_every(v: Vec<ABlock>, n: nat, p: spec_fn(ABlock) -> bool) -> bool decreases v, n when n <= v@.len() { n == 0 || seq_every(v, (n - 1) as nat, p) && every(v[n - 1], p) }
pub open spec fn items_every(v: Vec<SpecItem>, n: nat, p: spec_fn(ABlock) -> bool) -> bool decreases v, n when n <= v@.len() { n == 0 || items_every(v, (n - 1) as nat, p) && (match v[n - 1] { SpecItem::Text(t) => true, SpecItem::Parameter(a) => arg_every(a, p) }) }
pub open spec fn arg_every(a: Argument, p: spec_fn(ABlock) -> bool) -> bool decreases a, 0nat { match a { Argument::String { name, value } => val_every(value, p), Argument::Number { name, value } => val_every(value, p), Argument::Boolean { name, value } => val_every(value, p), Argument::Menu { name, value } => val_every(value, p) } }
pub open spec fn val_every<T>(v: ArgValue<T>, p: spec_fn(ABlock) -> bool) -> bool decreases v, 0nat { match v { ArgValue::Block(b) => every(b, p), _ => true } }
/// the literal texts among the arguments do not look like references
pub open spec fn arg_plain(a: Argument) -> bool { match a { Argument::String { name, value: ArgValue::Value(v) } => !is_ref(v), Argument::Menu { name, value: ArgValue::Value(v) } => !is_ref(v), _ => true } }
pub open spec fn plain(b: ABlock) -> bool { forall|i: int| 0 <= i < b.content.items@.len() ==> (#[trigger] b.content.items@[i] matches SpecItem::Parameter(a) ==> arg_plain(a)) }
/// what an argument text refers to; -1 if it looks like a reference and is none
pub open spec fn target(t: String) -> int { match u32::of_text(t@.skip(1)) { Some(x) => x as int, None => -1 } }
pub open spec fn text_ref(t: String, j: int) -> nat { if is_ref(t) && target(t) == j { 1 } else { 0 } }
pub open spec fn text_refs(t: Seq<String>, n: nat, j: int) -> nat decreases n { if n == 0 { 0 } else { text_refs(t, (n - 1) as nat, j) + text_ref(t[n - 1], j) } }
pub open spec fn num_ref(p: i32, j: int) -> nat { if p >= 0 && p == j { 1 } else { 0 } }
/// how often a record refers to block j; how often all records do
pub open spec fn head_refs(p: PBlock, j: int) -> nat { num_ref(p.next_block, j) + num_ref(p.sub_stack1, j) + num_ref(p.sub_stack2, j) + text_refs(p.parameters@, p.parameters@.len(), j) }
pub open spec fn refs_to(w: Seq<PBlock>, j: int) -> nat decreases w.len() { if w.len() == 0 { 0 } else { refs_to(w.drop_last(), j) + head_refs(w.last(), j) } }
pub open spec fn one(c: bool) -> nat { if c { 1 } else { 0 } }
pub proof fn refs_cat(a: Seq<PBlock>, b: Seq<PBlock>, j: int) ensures refs_to(a + b, j) == refs_to(a, j) + refs_to(b, j) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { refs_cat(a, b.drop_last(), j); assert((a + b).drop_last() =~= a + b.drop_last()); } }
pub proof fn refs_one(p: PBlock, j: int) ensures refs_to(seq![p], j) == head_refs(p, j) { reveal_with_fuel(refs_to, 2); assert(seq![p].drop_last() =~= Seq::empty()); }
pub proof fn refs_in(w: Seq<PBlock>, i: int, j: int) requires 0 <= i < w.len() ensures head_refs(w[i], j) <= refs_to(w, j) decreases w.len()
{ if i < w.len() - 1 { refs_in(w.drop_last(), i, j); } }
pub proof fn texts_in(t: Seq<String>, i: int, n: nat, j: int) requires 0 <= i < n <= t.len() ensures text_ref(t[i], j) <= text_refs(t, n, j) decreases n
{ if i < n - 1 { texts_in(t, i, (n - 1) as nat, j); } }
pub proof fn texts_ext(a: Seq<String>, b: Seq<String>, n: nat, j: int) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures text_refs(a, n, j) == text_refs(b, n, j) decreases n
{ if n > 0 { texts_ext(a, b, (n - 1) as nat, j); assert(a[n - 1] == b[n - 1]); } }
pub proof fn ref_text_is(id: int, j: int) requires 0 <= id <= u32::MAX ensures is_ref(ref_text(id)), target(ref_text(id)) == id, u32::of_text(ref_text(id)@.skip(1)) == Some(id as u32)
{ broadcast use vp_views; broadcast use vp_num; reveal_strlit("@"); ref_mark(ref_text(id)@); assert(ref_text(id)@.skip(1) =~= dec(id)); }
pub proof fn not_ref(s: Seq<char>) ensures s.len() == 0 ==> !starts(s, "@"@), s.len() > 0 && s[0] != '@' ==> !starts(s, "@"@) { reveal_strlit("@"); ref_mark(s); }
/// a boolean literal refers to nothing
pub proof fn literal_refs(v: bool, id: int, j: int) ensures head_refs(head(literal_block(v), id, true), j) == 0
{
    broadcast use vp_views; literal_is(v, id); let b = literal_block(v); let its = b.content.items;
    assert(its@ =~= seq![SpecItem::Text(string_of(v.disp()))]); assert(its@.len() == 1);
    reveal_with_fuel(items_texts, 2); assert(items_texts(its, 1, id + 1) =~= Seq::empty());
}
pub proof fn arg_refs(a: Argument, id: int, j: int)
    requires arg_plain(a), arg_whole(a), arg_every(a, |b: ABlock| plain(b)), 0 <= id, id + arg_size(a) <= i32::MAX
    ensures refs_to(w_arg(a, id), j) + text_ref(arg_text(a, id), j) == one(id <= j < id + arg_size(a))
    decreases a, 0nat
{
    broadcast use vp_views; broadcast use ax_f64_text; reveal_strlit(""); ref_text_is(id, j); not_ref(arg_text(a, id)@);
    match a {
        Argument::String { name, value } => val_refs(value, id, j),
        Argument::Number { name, value } => val_refs(value, id, j),
        Argument::Boolean { name, value } => match value { ArgValue::Value(v) => { literal_refs(v, id, j); refs_one(head(literal_block(v), id, true), j); } _ => val_refs(value, id, j) },
        Argument::Menu { name, value } => val_refs(value, id, j),
    }
}
pub proof fn val_refs<T>(v: ArgValue<T>, id: int, j: int)
    requires val_whole(v), val_every(v, |b: ABlock| plain(b)), 0 <= id, id + val_size(v) <= i32::MAX
    ensures refs_to(w_val(v, id), j) == one(id < j < id + val_size(v)), v is Block ==> val_size(v) > 0
    decreases v, 0nat
{ match v { ArgValue::Block(b) => block_refs(b, id, true, j), _ => {} } }
pub proof fn items_refs(v: Vec<SpecItem>, n: nat, id: int, j: int)
    requires n <= v@.len(), items_whole(v, n), items_every(v, n, |b: ABlock| plain(b)), forall|i: int| 0 <= i < n ==> (#[trigger] v@[i] matches SpecItem::Parameter(a) ==> arg_plain(a)), 0 <= id, id + items_size(v, n) <= i32::MAX
    ensures refs_to(w_items(v, n, id), j) + text_refs(items_texts(v, n, id), items_texts(v, n, id).len(), j) == one(id <= j < id + items_size(v, n))
    decreases v, n
{
    if n > 0 {
        let n1 = (n - 1) as nat; items_refs(v, n1, id, j); let i1 = id + items_size(v, n1);
        assert(v@[n - 1] == v[n - 1]);
        match v[n - 1] {
            SpecItem::Text(t) => { assert(w_items(v, n, id) =~= w_items(v, n1, id)); }
            SpecItem::Parameter(a) => {
                assert(arg_plain(a)); arg_refs(a, i1, j); refs_cat(w_items(v, n1, id), w_arg(a, i1), j);
                let t = items_texts(v, n, id); let t1 = items_texts(v, n1, id); texts_ext(t, t1, t1.len(), j);
            }
        }
    }
}
pub proof fn nest_refs(o: Option<Blocks>, id: int, j: int)
    requires nest_whole(o), nest_every(o, |b: ABlock| plain(b)), 0 <= id, id + nest_size(o) <= i32::MAX
    ensures refs_to(w_nest(o, id), j) == one(id < j < id + nest_size(o))
    decreases o, 0nat
{ match o { None => {} Some(bs) => seq_refs(bs.0, bs.0@.len(), id, j) } }
pub proof fn seq_refs(v: Vec<ABlock>, n: nat, id: int, j: int)
    requires n <= v@.len(), seq_whole(v, n), seq_every(v, n, |b: ABlock| plain(b)), 0 <= id, id + seq_size(v, n) <= i32::MAX
    ensures refs_to(w_seq(v, n, id), j) == one(id < j < id + seq_size(v, n)) + one(0 < n < v@.len() && j == id + seq_size(v, n)), n > 0 ==> seq_size(v, n) > 0
    decreases v, n
{
    if n > 0 { let n1 = (n - 1) as nat; let i1 = id + seq_size(v, n1); let l = n == v@.len(); seq_refs(v, n1, id, j); block_refs(v[n - 1], i1, l, j); refs_cat(w_seq(v, n1, id), w_block(v[n - 1], i1, l), j); }
}
pub proof fn block_refs(b: ABlock, id: int, last: bool, j: int)
    requires whole(b), every(b, |b: ABlock| plain(b)), 0 <= id, id + block_size(b) <= i32::MAX
    ensures refs_to(w_block(b, id, last), j) == one(id < j < id + block_size(b)) + one(!last && j == id + block_size(b)), block_size(b) > 0
    decreases b, 0nat
{
    broadcast use vp_views;
    let its = b.content.items; let n = its@.len(); let k = items_size(its, n); let h = head(b, id, last);
    let s1 = id + 1 + k; let s2 = s1 + nest_size(b.sub_stack1); let wi = w_items(its, n, id + 1); let w1 = w_nest(b.sub_stack1, s1); let w2 = w_nest(b.sub_stack2, s2);
    assert(plain(b));
    items_refs(its, n, id + 1, j); nest_refs(b.sub_stack1, s1, j); nest_refs(b.sub_stack2, s2, j);
    refs_one(h, j); refs_cat(seq![h], wi, j); refs_cat(w1, w2, j); refs_cat(seq![h] + wi, w1 + w2, j);
}
/// C17: ids in order; every block but the first is referred to exactly once; nothing else is referred to
pub open spec fn well_formed(w: Seq<PBlock>, id: int) -> bool {
    &&& forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).id@ == dec(id + i)
    &&& forall|j: int| #[trigger] refs_to(w, j) == one(id < j < id + w.len())
    &&& forall|i: int| 0 <= i < w.len() ==> in_place((#[trigger] w[i]).next_block, id, w.len()) && in_place(w[i].sub_stack1, id, w.len()) && in_place(w[i].sub_stack2, id, w.len())
    &&& forall|i: int, k: int| 0 <= i < w.len() && 0 <= k < w[i].parameters@.len() && is_ref(#[trigger] w[i].parameters@[k]) ==> id < target(w[i].parameters@[k]) < id + w.len()
}
pub open spec fn in_place(p: i32, id: int, n: nat) -> bool { p == -1 || id < p < id + n }
pub proof fn refs_place(w: Seq<PBlock>, id: int, i: int)
    requires forall|j: int| #[trigger] refs_to(w, j) == one(id < j < id + w.len()), 0 <= i < w.len(), 0 <= id
    ensures ({ let p = w[i]; (p.next_block >= 0 ==> in_place(p.next_block, id, w.len())) && (p.sub_stack1 >= 0 ==> in_place(p.sub_stack1, id, w.len())) && (p.sub_stack2 >= 0 ==> in_place(p.sub_stack2, id, w.len())) }),
        forall|k: int| 0 <= k < w[i].parameters@.len() && is_ref(#[trigger] w[i].parameters@[k]) ==> id < target(w[i].parameters@[k]) < id + w.len()
{
    let p = w[i];
    refs_in(w, i, p.next_block as int); refs_in(w, i, p.sub_stack1 as int); refs_in(w, i, p.sub_stack2 as int);
    assert(refs_to(w, p.next_block as int) == one(id < p.next_block < id + w.len()));
    assert(refs_to(w, p.sub_stack1 as int) == one(id < p.sub_stack1 < id + w.len()));
    assert(refs_to(w, p.sub_stack2 as int) == one(id < p.sub_stack2 < id + w.len()));
    assert forall|k: int| 0 <= k < p.parameters@.len() && is_ref(#[trigger] p.parameters@[k]) implies id < target(p.parameters@[k]) < id + w.len() by {
        let j = target(p.parameters@[k]); texts_in(p.parameters@, k, p.parameters@.len(), j); refs_in(w, i, j); assert(refs_to(w, j) == one(id < j < id + w.len()));
    }
}
/// a number that is no reference is -1
pub open spec fn neat(w: Seq<PBlock>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).next_block >= -1 && w[i].sub_stack1 >= -1 && w[i].sub_stack2 >= -1 }
pub proof fn neat_cat(a: Seq<PBlock>, b: Seq<PBlock>) requires neat(a), neat(b) ensures neat(a + b) { assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).next_block >= -1 && (a + b)[i].sub_stack1 >= -1 && (a + b)[i].sub_stack2 >= -1 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn block_neat(b: ABlock, id: int, last: bool) requires 0 <= id, id + block_size(b) <= i32::MAX ensures neat(w_block(b, id, last)) decreases b, 0nat
{
    let its = b.content.items; let n = its@.len(); let s1 = id + 1 + items_size(its, n); let s2 = s1 + nest_size(b.sub_stack1);
    items_neat(its, n, id + 1); nest_neat(b.sub_stack1, s1); nest_neat(b.sub_stack2, s2);
    neat_cat(seq![head(b, id, last)], w_items(its, n, id + 1)); neat_cat(w_nest(b.sub_stack1, s1), w_nest(b.sub_stack2, s2)); neat_cat(seq![head(b, id, last)] + w_items(its, n, id + 1), w_nest(b.sub_stack1, s1) + w_nest(b.sub_stack2, s2));
}
pub proof fn nest_neat(o: Option<Blocks>, id: int) requires 0 <= id, id + nest_size(o) <= i32::MAX ensures neat(w_nest(o, id)) decreases o, 0nat { match o { None => {} Some(bs) => seq_neat(bs.0, bs.0@.len(), id) } }
pub proof fn seq_neat(v: Vec<ABlock>, n: nat, id: int) requires n <= v@.len(), 0 <= id, id + seq_size(v, n) <= i32::MAX ensures neat(w_seq(v, n, id)) decreases v, n
{ if n > 0 { let n1 = (n - 1) as nat; seq_neat(v, n1, id); block_neat(v[n - 1], id + seq_size(v, n1), n == v@.len()); neat_cat(w_seq(v, n1, id), w_block(v[n - 1], id + seq_size(v, n1), n == v@.len())); } }
pub proof fn items_neat(v: Vec<SpecItem>, n: nat, id: int) requires n <= v@.len(), 0 <= id, id + items_size(v, n) <= i32::MAX ensures neat(w_items(v, n, id)) decreases v, n
{ if n > 0 { let n1 = (n - 1) as nat; items_neat(v, n1, id); let i1 = id + items_size(v, n1); match v[n - 1] { SpecItem::Text(t) => { assert(w_items(v, n, id) =~= w_items(v, n1, id)); } SpecItem::Parameter(a) => { arg_neat(a, i1); neat_cat(w_items(v, n1, id), w_arg(a, i1)); } } } }
pub proof fn arg_neat(a: Argument, id: int) requires 0 <= id, id + arg_size(a) <= i32::MAX ensures neat(w_arg(a, id)) decreases a, 0nat
{ match a { Argument::String { name, value } => val_neat(value, id), Argument::Number { name, value } => val_neat(value, id), Argument::Boolean { name, value } => match value { ArgValue::Value(v) => { } _ => val_neat(value, id) }, Argument::Menu { name, value } => val_neat(value, id) } }
pub proof fn val_neat<T>(v: ArgValue<T>, id: int) requires 0 <= id, id + val_size(v) <= i32::MAX ensures neat(w_val(v, id)) decreases v, 0nat { match v { ArgValue::Block(b) => block_neat(b, id, true), _ => {} } }
pub proof fn c17_well_formed(bs: Blocks, id: int)
    requires seq_whole(bs.0, bs.0@.len()), seq_every(bs.0, bs.0@.len(), |b: ABlock| plain(b)), 0 <= id, id + seq_size(bs.0, bs.0@.len()) <= i32::MAX
    ensures well_formed(w_seq(bs.0, bs.0@.len(), id), id)
{
    broadcast use vp_views;
    let v = bs.0; let n = v@.len(); let w = w_seq(v, n, id);
    seq_num(v, n, id); seq_neat(v, n, id);
    assert forall|j: int| #[trigger] refs_to(w, j) == one(id < j < id + w.len()) by { seq_refs(v, n, id, j); }
    assert forall|i: int| 0 <= i < w.len() implies in_place((#[trigger] w[i]).next_block, id, w.len()) && in_place(w[i].sub_stack1, id, w.len()) && in_place(w[i].sub_stack2, id, w.len()) by { refs_place(w, id, i); }
    assert forall|i: int, k: int| 0 <= i < w.len() && 0 <= k < w[i].parameters@.len() && is_ref(#[trigger] w[i].parameters@[k]) implies id < target(w[i].parameters@[k]) < id + w.len() by { refs_place(w, id, i); }
}
/// the k-th block of a sequence starts where the ones before it end; it refers to the next one, the last to none
pub proof fn seq_at(v: Vec<ABlock>, n: nat, k: nat, id: int) requires k < n <= v@.len()
    ensures seq_size(v, k) + block_size(v[k as int]) <= seq_size(v, n), w_seq(v, n, id).len() == seq_size(v, n), w_seq(v, n, id).subrange(seq_size(v, k) as int, (seq_size(v, k) + block_size(v[k as int])) as int) == w_block(v[k as int], id + seq_size(v, k), k + 1 == v@.len())
    decreases n
{
    let n1 = (n - 1) as nat; seq_num(v, n, id); seq_num(v, n1, id); seq_up_to(v, k, n); block_num(v[n - 1], id + seq_size(v, n1), n == v@.len());
    if k < n1 { seq_at(v, n1, k, id); assert(w_seq(v, n, id).subrange(seq_size(v, k) as int, (seq_size(v, k) + block_size(v[k as int])) as int) =~= w_seq(v, n1, id).subrange(seq_size(v, k) as int, (seq_size(v, k) + block_size(v[k as int])) as int)); }
    else { assert(w_seq(v, n, id).subrange(seq_size(v, n1) as int, seq_size(v, n) as int) =~= w_block(v[n - 1], id + seq_size(v, n1), n == v@.len())); }
}
pub proof fn c17_chain(bs: Blocks, k: nat, id: int) requires k < bs.0@.len(), 0 <= id, id + seq_size(bs.0, bs.0@.len()) <= i32::MAX
    ensures ({ let w = w_seq(bs.0, bs.0@.len(), id); let i = seq_size(bs.0, k) as int; i < w.len() && w[i] == head(bs.0[k as int], id + i, k + 1 == bs.0@.len())
        && w[i].next_block == (if k + 1 == bs.0@.len() { -1 } else { id + seq_size(bs.0, k + 1) })
        && (nest_size(bs.0[k as int].sub_stack1) == 0 <==> w[i].sub_stack1 == -1) && (nest_size(bs.0[k as int].sub_stack2) == 0 <==> w[i].sub_stack2 == -1) })
{ let v = bs.0; let n = v@.len(); seq_at(v, n, k, id); let i = seq_size(v, k) as int; let b = v[k as int]; let w = w_seq(v, n, id);
  block_num(b, id + i, k + 1 == n); assert(w.subrange(i, i + block_size(b))[0] == w[i]); if k + 1 < n { seq_at(v, n, k + 1, id); } }
