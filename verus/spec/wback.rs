// ---- C16: reading what was written
pub open spec fn no_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != ' ' }
/// words a spec can hold, and arguments it can carry
pub open spec fn good_arg(a: Argument) -> bool {
    &&& match arg_name(a) { Some(n) => n@.len() > 0 && no_blank(n@), None => true }
    &&& match a {
        Argument::String { name, value } => match value { ArgValue::Value(v) => !is_ref(v), ArgValue::Block(b) => true, _ => false },
        Argument::Menu { name, value } => match value { ArgValue::Value(v) => !is_ref(v), ArgValue::Block(b) => true, _ => false },
        Argument::Number { name, value } => match value { ArgValue::Value(v) => f64_number(v), ArgValue::BlockPlaceholder { block_id } => false, _ => true },
        Argument::Boolean { name, value } => match value { ArgValue::Block(b) => b.op_code@ != "true"@ && b.op_code@ != "false"@, ArgValue::BlockPlaceholder { block_id } => false, _ => true },
    }
}
pub open spec fn good_item(i: SpecItem) -> bool { match i { SpecItem::Text(t) => no_blank(t@) && is_text(t@), SpecItem::Parameter(a) => good_arg(a) } }
pub open spec fn good_name(a: Argument) -> bool { match arg_name(a) { Some(n) => n@.len() > 0 && no_blank(n@), None => true } }
pub open spec fn good_text(i: SpecItem) -> bool { match i { SpecItem::Text(t) => no_blank(t@) && is_text(t@), SpecItem::Parameter(a) => good_name(a) } }
/// the spec of a more block: parameters without values
pub open spec fn good_spec(c: BlockContent) -> bool { c.items@.len() > 0 && forall|i: int| 0 <= i < c.items@.len() ==> good_text(#[trigger] c.items@[i]) && (c.items@[i] matches SpecItem::Parameter(a) ==> emptied(a) == a) }
pub open spec fn nonempty(o: Option<Blocks>) -> bool { match o { Some(bs) => bs.0@.len() > 0, None => true } }
pub open spec fn good_block(b: ABlock) -> bool { b.content.items@.len() > 0 && (forall|i: int| 0 <= i < b.content.items@.len() ==> good_item(#[trigger] b.content.items@[i])) && nonempty(b.sub_stack1) && nonempty(b.sub_stack2) }
pub open spec fn good_tree(bs: Blocks) -> bool { seq_every(bs.0, bs.0@.len(), |b: ABlock| good_block(b)) }
// -- words
pub open spec fn join(ws: Seq<Seq<char>>) -> Seq<char> { cat(ws, ws.len()).drop_last() }
pub proof fn find_at(s: Seq<char>, p: Seq<char>, i: int, k: int) requires p.len() == 1, 0 <= i <= k < s.len(), s[k] == p[0], forall|j: int| i <= j < k ==> s[j] != p[0] ensures find_from(s, p, i) == Some(k) decreases k - i
{ if i < k { assert(s.subrange(i, i + 1)[0] == s[i]); find_at(s, p, i + 1, k); } else { assert(s.subrange(k, k + 1) =~= p); } }
pub proof fn find_no(s: Seq<char>, p: Seq<char>, i: int) requires p.len() == 1, 0 <= i, forall|j: int| i <= j < s.len() ==> s[j] != p[0] ensures find_from(s, p, i) is None decreases s.len() - i
{ if i < s.len() { assert(s.subrange(i, i + 1)[0] == s[i]); find_no(s, p, i + 1); } }
pub proof fn words_join(ws: Seq<Seq<char>>) requires ws.len() > 0, forall|i: int| 0 <= i < ws.len() ==> no_blank(#[trigger] ws[i]) ensures words(join(ws)) == ws, cat(ws, ws.len()).len() > 0 decreases ws.len()
{
    reveal_strlit(" ");
    let a = ws[0]; let t = ws.skip(1); let n = (ws.len() - 1) as nat;
    assert(ws =~= seq![a] + t); cat_cons(a, t, n);
    assert(no_blank(a));
    if n == 0 { assert(cat(t, 0) =~= Seq::empty()); assert(join(ws) =~= a); find_no(a, blank(), 0); assert(words(a) =~= seq![a]); assert(ws =~= seq![a]); }
    else {
        assert forall|i: int| 0 <= i < t.len() implies no_blank(#[trigger] t[i]) by { assert(t[i] == ws[i + 1]); }
        words_join(t);
        let s = join(ws); assert(s =~= a.push(' ') + join(t));
        find_at(s, blank(), 0, a.len() as int);
        assert(s.take(a.len() as int) =~= a); assert(s.skip((a.len() + 1) as int) =~= join(t));
        assert(words(s) == seq![a] + words(join(t)));
    }
}
// -- contents
/// an argument whose block is still only named
pub open spec fn mark_val<T>(v: ArgValue<T>, id: int) -> ArgValue<T> { match v { ArgValue::Block(b) => ArgValue::BlockPlaceholder { block_id: id as u32 }, _ => v } }
pub open spec fn mark(a: Argument, id: int) -> Argument { match a {
    Argument::String { name, value } => Argument::String { name, value: mark_val(value, id) },
    Argument::Number { name, value } => Argument::Number { name, value: mark_val(value, id) },
    Argument::Boolean { name, value } => match value { ArgValue::Value(v) => Argument::Boolean { name, value: ArgValue::BlockPlaceholder { block_id: id as u32 } }, _ => Argument::Boolean { name, value: mark_val(value, id) } },
    Argument::Menu { name, value } => Argument::Menu { name, value: mark_val(value, id) },
} }
pub open spec fn marked(v: Vec<SpecItem>, id: int, n: nat) -> Seq<SpecItem> decreases n { if n == 0 { Seq::empty() } else { marked(v, id, (n - 1) as nat).push(match v@[n - 1] { SpecItem::Text(t) => v@[n - 1], SpecItem::Parameter(a) => SpecItem::Parameter(mark(a, id + items_size(v, (n - 1) as nat))) }) } }
pub proof fn marked_at(v: Vec<SpecItem>, id: int, n: nat, i: int) requires 0 <= i < n ensures marked(v, id, n).len() == n, marked(v, id, n)[i] == (match v@[i] { SpecItem::Text(t) => v@[i], SpecItem::Parameter(a) => SpecItem::Parameter(mark(a, id + items_size(v, i as nat))) }) decreases n
{ if i < n - 1 { marked_at(v, id, (n - 1) as nat, i); } else { marked_len(v, id, (n - 1) as nat); } }
pub proof fn marked_len(v: Vec<SpecItem>, id: int, n: nat) ensures marked(v, id, n).len() == n decreases n { if n > 0 { marked_len(v, id, (n - 1) as nat); } }
pub open spec fn texts_of(v: Vec<SpecItem>) -> Seq<Seq<char>> { Seq::new(v@.len(), |i: int| item_text(v@[i])) }
pub proof fn item_word(i: SpecItem) requires good_text(i)
    ensures no_blank(item_text(i)), match i { SpecItem::Text(t) => is_text(item_text(i)) && string_of(item_text(i)) == t, SpecItem::Parameter(a) => !is_text(item_text(i)) && blank_arg(item_text(i)) == Some(emptied(a)) }
{
    broadcast use vp_views; reveal_strlit("%"); reveal_strlit("%s"); reveal_strlit("%d"); reveal_strlit("%b"); reveal_strlit("%m");
    if let SpecItem::Parameter(a) = i {
        let w = item_text(i);
        assert(w.take(1) =~= "%"@);
        if let Some(n) = arg_name(a) { assert(w[2] == '.'); assert(w.skip(3) =~= n@); assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] != ' ' by { if j >= 3 { assert(w[j] == n@[j - 3]); } } }
    }
}
pub proof fn fill_marked(a: Argument, id: int) requires good_arg(a), 0 <= id <= i32::MAX ensures fill(emptied(a), arg_text(a, id)) == Some(mark(a, id))
{ broadcast use vp_views; broadcast use ax_f64_text; reveal_strlit(""); ref_text_is(id, 0); not_ref(arg_text(a, id)@); }
pub proof fn texts_prefix(v: Vec<SpecItem>, k: nat, n: nat, id: int) requires k <= n ensures items_texts(v, k, id).len() <= items_texts(v, n, id).len(), forall|i: int| 0 <= i < items_texts(v, k, id).len() ==> items_texts(v, n, id)[i] == #[trigger] items_texts(v, k, id)[i] decreases n
{ if k < n { texts_prefix(v, k, (n - 1) as nat, id); } }
pub proof fn items_mono(v: Vec<SpecItem>, k: nat, n: nat) requires k <= n <= v@.len() ensures items_size(v, k) <= items_size(v, n), k < n ==> (v@[k as int] matches SpecItem::Parameter(a) ==> items_size(v, k) + arg_size(a) <= items_size(v, n)) decreases n
{ if k < n { items_mono(v, k, (n - 1) as nat); if k == n - 1 { assert(v@[n - 1] == v[n - 1]); } } }
pub proof fn full_marked(v: Vec<SpecItem>, id: int, n: nat)
    requires n <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> good_item(#[trigger] v@[i]), 0 <= id, id + items_size(v, v@.len()) <= i32::MAX
    ensures full_words(texts_of(v), items_texts(v, v@.len(), id), n) == Some((marked(v, id, n), items_texts(v, n, id).len() as int))
    decreases n
{
    if n > 0 {
        let n1 = (n - 1) as nat; full_marked(v, id, n1); item_word(v@[n - 1]); items_mono(v, n1, v@.len());
        assert(texts_of(v)[n - 1] == item_text(v@[n - 1]));
        if let SpecItem::Parameter(a) = v@[n - 1] { fill_marked(a, id + items_size(v, n1)); texts_prefix(v, n, v@.len(), id); assert(items_texts(v, n, id)[items_texts(v, n1, id).len() as int] == arg_text(a, id + items_size(v, n1))); }
    }
}
pub proof fn content_back(c: BlockContent, id: int)
    requires c.items@.len() > 0, forall|i: int| 0 <= i < c.items@.len() ==> good_item(#[trigger] c.items@[i]), 0 <= id, id + items_size(c.items, c.items@.len()) <= i32::MAX
    ensures full_content(content_text(c), items_texts(c.items, c.items@.len(), id)) matches Some(d) && d.items@ == marked(c.items, id, c.items@.len())
{
    broadcast use vp_views;
    let v = c.items; let n = v@.len(); let ws = texts_of(v);
    assert forall|i: int| 0 <= i < ws.len() implies no_blank(#[trigger] ws[i]) by { assert(good_item(v@[i])); item_word(v@[i]); }
    words_join(ws); print_is(v@, ws, n); full_marked(v, id, n);
    assert(content_text(c) == join(ws));
}
/// a spec without values reads back from its text
pub proof fn blank_back(v: Vec<SpecItem>, n: nat)
    requires n <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> good_text(#[trigger] v@[i]) && (v@[i] matches SpecItem::Parameter(a) ==> emptied(a) == a)
    ensures blank_words(texts_of(v), n) == Some(v@.take(n as int))
    decreases n
{ if n > 0 { blank_back(v, (n - 1) as nat); item_word(v@[n - 1]); assert(texts_of(v)[n - 1] == item_text(v@[n - 1])); assert(v@.take(n as int) =~= v@.take(n - 1).push(v@[n - 1])); } else { assert(v@.take(0) =~= Seq::empty()); } }
pub proof fn c22_spec(c: BlockContent)
    requires good_spec(c)
    ensures content_of(content_text(c)) == Some(c)
{
    broadcast use vp_views;
    let v = c.items; let n = v@.len(); let ws = texts_of(v);
    assert forall|i: int| 0 <= i < ws.len() implies no_blank(#[trigger] ws[i]) by { assert(good_text(v@[i])); item_word(v@[i]); }
    words_join(ws); print_is(v@, ws, n); blank_back(v, n); assert(v@.take(n as int) =~= v@); assert(vec_of(v@) == v);
    assert(content_text(c) == join(ws));
}
pub proof fn type_back(t: BlockType) ensures block_type_of(type_text(t), match type_name_text(t) { Some(n) => n, None => string_of(""@) }) == Some(t)
{
    broadcast use vp_views; reveal_strlit("v"); reveal_strlit("p"); reveal_strlit("b"); reveal_strlit("s"); reveal_strlit("d"); reveal_strlit("l"); reveal_strlit("c"); reveal_strlit("e"); reveal_strlit("f"); reveal_strlit(" "); reveal_strlit("List String"); reveal_strlit("List Number");
    let s = type_text(t);
    assert(s.len() == 1);
    assert("List String"@[5] != "List Number"@[5]);
    assert("v"@[0] == 'v' && "p"@[0] == 'p' && "b"@[0] == 'b' && "s"@[0] == 's' && "d"@[0] == 'd' && "l"@[0] == 'l' && "c"@[0] == 'c' && "e"@[0] == 'e' && "f"@[0] == 'f' && " "@[0] == ' ');
}
// -- pools
pub open spec fn has(m: Pool, w: Seq<PBlock>, id: int) -> bool { forall|i: int| 0 <= i < w.len() ==> lhm_get(m, (id + i) as u32) == Some(#[trigger] w[i]) }
/// the blocks from id on are gone, the others are as they were
pub open spec fn gone(r: Pool, m: Pool, id: int, n: int) -> bool { lhm_ok(r) && forall|j: u32| #[trigger] lhm_get(r, j) == (if id <= j < id + n { None } else { lhm_get(m, j) }) }
pub proof fn gone_two(a: Pool, b: Pool, m: Pool, id: int, n: int, k: int) requires gone(a, m, id, n), gone(b, a, id + n, k), 0 <= n, 0 <= k ensures gone(b, m, id, n + k) { assert forall|j: u32| #[trigger] lhm_get(b, j) == (if id <= j < id + n + k { None } else { lhm_get(m, j) }) by { assert(lhm_get(a, j) == (if id <= j < id + n { None } else { lhm_get(m, j) })); } }
pub proof fn has_sub(m: Pool, w: Seq<PBlock>, id: int, a: int, b: int) requires has(m, w, id), 0 <= a <= b <= w.len() ensures has(m, w.subrange(a, b), id + a)
{ assert forall|i: int| 0 <= i < b - a implies lhm_get(m, (id + a + i) as u32) == Some(#[trigger] w.subrange(a, b)[i]) by { assert(w[a + i] == w.subrange(a, b)[i]); } }
pub proof fn has_left(m: Pool, r: Pool, w: Seq<PBlock>, id: int, g: int, n: int) requires has(m, w, id), gone(r, m, g, n), g + n <= id || id + w.len() <= g, 0 <= id, id + w.len() <= i32::MAX ensures has(r, w, id)
{ assert forall|i: int| 0 <= i < w.len() implies lhm_get(r, (id + i) as u32) == Some(#[trigger] w[i]) by { let j = (id + i) as u32; assert(lhm_get(r, j) == (if g <= j < g + n { None } else { lhm_get(m, j) })); } }
pub proof fn literal_back(v: bool, id: int, m: Pool)
    requires lhm_ok(m), 0 <= id < i32::MAX, lhm_get(m, id as u32) == Some(head(literal_block(v), id, true))
    ensures read_block(id as u32, m) matches Some(r) && r.0 == literal_block(v) && gone(r.1, m, id, 1)
{
    broadcast use vp_views; reveal_strlit("%"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("b"); reveal_strlit("");
    let b = literal_block(v); let its = b.content.items; let h = head(b, id, true); let t = SpecItem::Text(string_of(v.disp()));
    literal_is(v, id); reveal(sz);
    assert(its@ =~= seq![t]); assert(its@.len() == 1); assert(its[0] == t);
    assert(items_size(its, 1) == 0) by { reveal_with_fuel(items_size, 2); }
    assert(no_blank(v.disp())); assert(is_text(v.disp())) by { if starts(v.disp(), "%"@) { assert(v.disp().take(1)[0] == v.disp()[0]); } }
    assert(good_item(its@[0]));
    content_back(b.content, id + 1); type_back(b.block_type);
    let c = full_content(h.spec@, h.parameters@)->0;
    assert(c.items@ =~= seq![t]) by { marked_at(its, id + 1, 1, 0); }
    let m0 = lhm_del(m, id as u32); del_less(m, id as u32); lhm_get_del(m, id as u32, id as u32);
    assert(read_nest(-1i32, m0) == Some((None::<Blocks>, m0)));
    assert(read_args(c.items@, m0, 1) == Some((seq![t], m0))) by { reveal_with_fuel(read_args, 2); assert(Seq::<SpecItem>::empty().push(t) =~= seq![t]); }
    assert(gone(m0, m, id, 1)) by { assert forall|j: u32| #[trigger] lhm_get(m0, j) == (if id <= j < id + 1 { None } else { lhm_get(m, j) }) by { lhm_get_del(m, id as u32, j); } }
}
pub proof fn arg_back(a: Argument, id: int, m: Pool)
    requires good_arg(a), arg_every(a, |b: ABlock| good_block(b)), lhm_ok(m), 0 <= id, id + arg_size(a) <= i32::MAX, id < i32::MAX, has(m, w_arg(a, id), id)
    ensures match holds(mark(a, id)) { None => arg_size(a) == 0 && mark(a, id) == a, Some(k) => k == id && (read_block(k, m) matches Some(r) && with_block(mark(a, id), r.0) == a && gone(r.1, m, id, arg_size(a) as int)) }
    decreases a, 0nat
{
    match a {
        Argument::String { name, value } => val_back(value, id, m),
        Argument::Number { name, value } => val_back(value, id, m),
        Argument::Boolean { name, value } => match value { ArgValue::Value(v) => { assert(w_arg(a, id)[0] == head(literal_block(v), id, true)); literal_back(v, id, m); broadcast use vp_views; reveal_strlit("true"); reveal_strlit("false"); assert("true"@.len() != "false"@.len()); } _ => val_back(value, id, m) },
        Argument::Menu { name, value } => val_back(value, id, m),
    }
}
pub proof fn val_back<T>(v: ArgValue<T>, id: int, m: Pool)
    requires val_every(v, |b: ABlock| good_block(b)), lhm_ok(m), 0 <= id, id + val_size(v) <= i32::MAX, has(m, w_val(v, id), id)
    ensures v matches ArgValue::Block(b) ==> (read_block(id as u32, m) matches Some(r) && r.0 == b && gone(r.1, m, id, val_size(v) as int))
    decreases v, 0nat
{ match v { ArgValue::Block(b) => block_back(b, id, true, m), _ => {} } }
pub proof fn items_back(v: Vec<SpecItem>, n: nat, id: int, m: Pool)
    requires n <= v@.len(), items_every(v, n, |b: ABlock| good_block(b)), forall|i: int| 0 <= i < n ==> good_item(#[trigger] v@[i]), lhm_ok(m), 0 <= id, id + items_size(v, n) <= i32::MAX, id < i32::MAX, has(m, w_items(v, n, id), id)
    ensures read_args(marked(v, id, v@.len()), m, n) matches Some(r) && r.0 == v@.take(n as int) && gone(r.1, m, id, items_size(v, n) as int)
    decreases v, n
{
    let ms = marked(v, id, v@.len());
    if n == 0 { assert(v@.take(0) =~= Seq::empty()); }
    else {
        let n1 = (n - 1) as nat; let i1 = id + items_size(v, n1); let w1 = w_items(v, n1, id); let w = w_items(v, n, id);
        items_num(v, n1, id); items_num(v, n, id); marked_at(v, id, v@.len(), n - 1); assert(v@[n - 1] == v[n - 1]); assert(good_item(v@[n - 1])); items_mono(v, n1, n);
        assert(v@.take(n as int) =~= v@.take(n1 as int).push(v@[n - 1]));
        match v[n - 1] {
            SpecItem::Text(t) => { assert(w =~= w1); items_back(v, n1, id, m); }
            SpecItem::Parameter(a) => {
                arg_num(a, i1);
                has_sub(m, w, id, 0, w1.len() as int); assert(w.subrange(0, w1.len() as int) =~= w1);
                has_sub(m, w, id, w1.len() as int, w.len() as int); assert(w.subrange(w1.len() as int, w.len() as int) =~= w_arg(a, i1));
                items_back(v, n1, id, m); args_use(ms, m, n1);
                let p = read_args(ms, m, n1)->0;
                has_left(m, p.1, w_arg(a, i1), i1, id, items_size(v, n1) as int);
                if i1 < i32::MAX {
                    arg_back(a, i1, p.1);
                    if let Some(k) = holds(mark(a, i1)) { gone_two(p.1, (read_block(k, p.1)->0).1, m, id, items_size(v, n1) as int, arg_size(a) as int); }
                } else { none_left(a, i1); }
            }
        }
    }
}
/// at the very end of the ids there are only arguments without blocks
pub proof fn none_left(a: Argument, id: int) requires good_arg(a), arg_size(a) == 0 ensures holds(mark(a, id)) is None, mark(a, id) == a
{ match a { Argument::String { name, value: ArgValue::Block(b) } => some_size(b), Argument::Number { name, value: ArgValue::Block(b) } => some_size(b), Argument::Boolean { name, value: ArgValue::Block(b) } => some_size(b), Argument::Menu { name, value: ArgValue::Block(b) } => some_size(b), _ => {} } }
pub proof fn some_size(b: ABlock) ensures block_size(b) > 0 { }
pub proof fn nest_back(o: Option<Blocks>, id: int, m: Pool)
    requires nonempty(o), nest_every(o, |b: ABlock| good_block(b)), lhm_ok(m), 0 <= id, id + nest_size(o) <= i32::MAX, has(m, w_nest(o, id), id)
    ensures read_nest(nest_ref(o, id), m) matches Some(r) && r.0 == o && gone(r.1, m, id, nest_size(o) as int)
    decreases o, 0nat
{
    broadcast use vp_views;
    match o { None => {} Some(bs) => { let n = bs.0@.len(); seq_at(bs.0, n, 0, id); some_size(bs.0[0]); seq_back(bs.0, 0, id, m); assert(bs.0@.skip(0) =~= bs.0@); } }
}
pub proof fn seq_back(v: Vec<ABlock>, k: nat, id: int, m: Pool)
    requires k < v@.len(), seq_every(v, v@.len(), |b: ABlock| good_block(b)), lhm_ok(m), 0 <= id, id + seq_size(v, v@.len()) <= i32::MAX,
        seq_size(v, k) <= seq_size(v, v@.len()), has(m, w_seq(v, v@.len(), id).skip(seq_size(v, k) as int), id + seq_size(v, k))
    ensures read_seq((id + seq_size(v, k)) as u32, m) matches Some(r) && r.0 == v@.skip(k as int) && gone(r.1, m, id + seq_size(v, k), seq_size(v, v@.len()) - seq_size(v, k))
    decreases v, v@.len() - k
{
    let n = v@.len(); let w = w_seq(v, n, id); let s = seq_size(v, k); let b = v[k as int]; let i = id + s; let l = k + 1 == n; let z = block_size(b);
    seq_at(v, n, k, id); every_at(v, n, k); some_size(b); block_num(b, i, l);
    let q = w.skip(s as int); assert(q.len() == w.len() - s);
    has_sub(m, q, i, 0, z as int); assert(q.subrange(0, z as int) =~= w.subrange(s as int, (s + z) as int));
    assert(q[0] == w.subrange(s as int, (s + z) as int)[0]);
    assert(q[0] == head(b, i, l));
    block_back(b, i, l, m); block_uses(i as u32, m);
    let r = read_block(i as u32, m)->0;
    assert(seq_size(v, k + 1) == s + z);
    if l { assert(v@.skip(k as int) =~= seq![b]); }
    else {
        seq_at(v, n, k + 1, id);
        has_sub(m, q, i, z as int, q.len() as int); assert(q.subrange(z as int, q.len() as int) =~= w.skip(seq_size(v, k + 1) as int));
        has_left(m, r.1, w.skip(seq_size(v, k + 1) as int), i + z, i, z as int);
        seq_back(v, k + 1, id, r.1);
        let t = read_seq((id + seq_size(v, k + 1)) as u32, r.1)->0;
        gone_two(r.1, t.1, m, i, z as int, seq_size(v, n) - s - z);
        assert(v@.skip(k as int) =~= seq![b] + v@.skip((k + 1) as int));
    }
}
pub proof fn every_at(v: Vec<ABlock>, n: nat, k: nat) requires k < n <= v@.len(), seq_every(v, n, |b: ABlock| good_block(b)) ensures every(v[k as int], |b: ABlock| good_block(b)) decreases n { if k < n - 1 { every_at(v, (n - 1) as nat, k); } }
pub proof fn block_back(b: ABlock, id: int, last: bool, m: Pool)
    requires every(b, |b: ABlock| good_block(b)), lhm_ok(m), 0 <= id, id + block_size(b) <= i32::MAX, has(m, w_block(b, id, last), id)
    ensures read_block(id as u32, m) matches Some(r) && r.0 == b && gone(r.1, m, id, block_size(b) as int)
    decreases b, 0nat
{
    broadcast use vp_views;
    let its = b.content.items; let n = its@.len(); let k = items_size(its, n) as int; let h = head(b, id, last); let w = w_block(b, id, last);
    let s1 = id + 1 + k; let z1 = nest_size(b.sub_stack1) as int; let s2 = s1 + z1; let z2 = nest_size(b.sub_stack2) as int;
    let wi = w_items(its, n, id + 1); let w1 = w_nest(b.sub_stack1, s1); let w2 = w_nest(b.sub_stack2, s2);
    assert(good_block(b));
    block_num(b, id, last); items_num(its, n, id + 1); nest_num(b.sub_stack1, s1); nest_num(b.sub_stack2, s2);
    assert(w[0] == h); assert(lhm_get(m, id as u32) == Some(h)) by { assert(lhm_get(m, (id + 0) as u32) == Some(w[0])); }
    has_sub(m, w, id, 1, 1 + k); assert(w.subrange(1, 1 + k) =~= wi);
    has_sub(m, w, id, 1 + k, 1 + k + z1); assert(w.subrange(1 + k, 1 + k + z1) =~= w1);
    has_sub(m, w, id, 1 + k + z1, 1 + k + z1 + z2); assert(w.subrange(1 + k + z1, 1 + k + z1 + z2) =~= w2);
    let m0 = lhm_del(m, id as u32); del_less(m, id as u32); lhm_get_del(m, id as u32, id as u32);
    assert(gone(m0, m, id, 1)) by { assert forall|j: u32| #[trigger] lhm_get(m0, j) == (if id <= j < id + 1 { None } else { lhm_get(m, j) }) by { lhm_get_del(m, id as u32, j); } }
    has_left(m, m0, w1, s1, id, 1); nest_back(b.sub_stack1, s1, m0); nest_uses(h.sub_stack1, m0);
    let p1 = read_nest(h.sub_stack1, m0)->0;
    has_left(m, m0, w2, s2, id, 1); has_left(m0, p1.1, w2, s2, s1, z1); nest_back(b.sub_stack2, s2, p1.1); nest_uses(h.sub_stack2, p1.1);
    let p2 = read_nest(h.sub_stack2, p1.1)->0;
    content_back(b.content, id + 1); let c = full_content(h.spec@, h.parameters@)->0;
    marked_len(its, id + 1, n);
    if id + 1 < i32::MAX {
        has_left(m, m0, wi, id + 1, id, 1); has_left(m0, p1.1, wi, id + 1, s1, z1); has_left(p1.1, p2.1, wi, id + 1, s2, z2);
        items_back(its, n, id + 1, p2.1);
    } else { items_none(its, n, id + 1, p2.1); }
    let p3 = read_args(c.items@, p2.1, n)->0;
    assert(its@.take(n as int) =~= its@);
    type_back(b.block_type);
    gone_all(m, m0, p1.1, p2.1, p3.1, id, k, z1, z2);
}
pub proof fn items_none(v: Vec<SpecItem>, n: nat, id: int, m: Pool)
    requires n <= v@.len(), forall|i: int| 0 <= i < n ==> good_item(#[trigger] v@[i]), lhm_ok(m), items_size(v, n) == 0
    ensures read_args(marked(v, id, v@.len()), m, n) == Some((v@.take(n as int), m)), gone(m, m, id, 0)
    decreases n
{
    if n == 0 { assert(v@.take(0) =~= Seq::empty()); }
    else {
        let n1 = (n - 1) as nat; items_mono(v, n1, n); items_none(v, n1, id, m); marked_at(v, id, v@.len(), n - 1); assert(good_item(v@[n - 1]));
        assert(v@.take(n as int) =~= v@.take(n1 as int).push(v@[n - 1]));
        if let SpecItem::Parameter(a) = v@[n - 1] { none_left(a, id + items_size(v, n1)); }
    }
}
pub proof fn gone_all(m: Pool, m0: Pool, a: Pool, b: Pool, c: Pool, id: int, k: int, z1: int, z2: int)
    requires gone(m0, m, id, 1), gone(a, m0, id + 1 + k, z1), gone(b, a, id + 1 + k + z1, z2), gone(c, b, id + 1, k), 0 <= k, 0 <= z1, 0 <= z2
    ensures gone(c, m, id, 1 + k + z1 + z2)
{
    assert forall|j: u32| #[trigger] lhm_get(c, j) == (if id <= j < id + 1 + k + z1 + z2 { None } else { lhm_get(m, j) }) by {
        assert(lhm_get(b, j) == (if id + 1 + k + z1 <= j < id + 1 + k + z1 + z2 { None } else { lhm_get(a, j) }));
        assert(lhm_get(a, j) == (if id + 1 + k <= j < id + 1 + k + z1 { None } else { lhm_get(m0, j) }));
        assert(lhm_get(m0, j) == (if id <= j < id + 1 { None } else { lhm_get(m, j) }));
    }
}
/// C16: reading a written tree gives the tree
pub proof fn c16_back(bs: Blocks) requires good_tree(bs), 10 + seq_size(bs.0, bs.0@.len()) <= i32::MAX ensures blocks_of(w_seq(bs.0, bs.0@.len(), 10)) == Some(bs)
{
    broadcast use vp_views; broadcast use vp_num;
    let v = bs.0; let n = v@.len(); let w = w_seq(v, n, 10);
    seq_num(v, n, 10);
    assert forall|i: int| 0 <= i < w.len() implies id_text(#[trigger] w[i]) == Some((10 + i) as u32) by { assert(w[i].id == string_of(dec(10 + i))); assert(num_of(dec(10 + i)) == Some(10 + i)); }
    pool_distinct(w, w.len()); pool_ok(w, w.len());
    let m = pool_of(w, w.len())->0;
    assert forall|i: int| 0 <= i < w.len() implies lhm_get(m, (10 + i) as u32) == Some(#[trigger] w[i]) by { assert(id_text(w[i]) == Some((10 + i) as u32)); assert forall|k: int| i < k < w.len() implies id_text(#[trigger] w[k]) != id_text(w[i]) by { } }
    if n > 0 {
        seq_at(v, n, 0, 10); some_size(v[0]);
        assert(w.skip(0) =~= w); seq_back(v, 0, 10, m); assert(v@.skip(0) =~= v@);
        assert(m[0] == (id_text(w[0])->0, w[0]));
    } else { assert(v@ =~= Seq::empty()); }
}
