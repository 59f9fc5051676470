pub use crate::api::block::{BlockContent, SpecItem, Argument, ArgValue, Block as ABlock};
pub open spec fn blank() -> Seq<char> { " "@ }
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { split(s, blank()) }
/// a word is a parameter if it starts with a percent sign and is not just that
pub open spec fn is_text(w: Seq<char>) -> bool { !starts(w, "%"@) || w == "%"@ }
/// %kind.name
pub open spec fn name_of(w: Seq<char>) -> Option<String> { if w.len() > 3 && w[2] == '.' { Some(string_of(w.skip(3))) } else { None } }
pub open spec fn is_ref(a: String) -> bool { starts(a@, "@"@) }
pub open spec fn ref_of<T>(a: String) -> Option<ArgValue<T>> { match u32::of_text(a@.skip(1)) { Some(id) => Some(ArgValue::BlockPlaceholder { block_id: id }), None => None } }
/// what an argument text is to a parameter: a reference, nothing, or a literal
pub open spec fn text_val(a: String) -> Option<ArgValue<String>> { if is_ref(a) { ref_of(a) } else { Some(ArgValue::Value(a)) } }
pub open spec fn num_val(a: String) -> Option<ArgValue<f64>> { if is_ref(a) { ref_of(a) } else if a@.len() == 0 { Some(ArgValue::Empty) } else { match f64::of_text(a@) { Some(v) => Some(ArgValue::Value(v)), None => None } } }
pub open spec fn bool_val(a: String) -> Option<ArgValue<bool>> { if is_ref(a) { ref_of(a) } else if a@.len() == 0 { Some(ArgValue::Empty) } else { match bool::of_text(a@) { Some(v) => Some(ArgValue::Value(v)), None => None } } }
/// a parameter without its value
pub open spec fn blank_arg(w: Seq<char>) -> Option<Argument> {
    if w.len() < 2 { None }
    else if w[1] == 's' { Some(Argument::String { name: name_of(w), value: ArgValue::Empty }) }
    else if w[1] == 'b' { Some(Argument::Boolean { name: name_of(w), value: ArgValue::Empty }) }
    else if w[1] == 'd' { Some(Argument::Number { name: name_of(w), value: ArgValue::Empty }) }
    else if w[1] == 'm' { match name_of(w) { Some(n) => Some(Argument::Menu { name: n, value: ArgValue::Empty }), None => None } }
    else { None }
}
pub open spec fn no_value(p: Argument) -> bool { match p { Argument::String { name, value } => value is Empty, Argument::Number { name, value } => value is Empty, Argument::Boolean { name, value } => value is Empty, Argument::Menu { name, value } => value is Empty } }
/// a parameter with the value an argument text gives it
pub open spec fn fill(p: Argument, a: String) -> Option<Argument> {
    match p {
        Argument::String { name, value } => match text_val(a) { Some(value) => Some(Argument::String { name, value }), None => None },
        Argument::Number { name, value } => match num_val(a) { Some(value) => Some(Argument::Number { name, value }), None => None },
        Argument::Boolean { name, value } => match bool_val(a) { Some(value) => Some(Argument::Boolean { name, value }), None => None },
        Argument::Menu { name, value } => match text_val(a) { Some(value) => Some(Argument::Menu { name, value }), None => None },
    }
}
/// the words of a spec, without values
pub open spec fn blank_word(w: Seq<char>) -> Option<SpecItem> { if is_text(w) { Some(SpecItem::Text(string_of(w))) } else { match blank_arg(w) { Some(p) => Some(SpecItem::Parameter(p)), None => None } } }
pub open spec fn blank_words(ws: Seq<Seq<char>>, n: nat) -> Option<Seq<SpecItem>> decreases n {
    if n == 0 { Some(Seq::empty()) } else { match blank_words(ws, (n - 1) as nat) { None => None, Some(p) => match blank_word(ws[n - 1]) { None => None, Some(i) => Some(p.push(i)) } } }
}
/// every parameter without a value takes the next argument
pub open spec fn apply(items: Seq<SpecItem>, args: Seq<String>, n: nat) -> Option<(Seq<SpecItem>, int)> decreases n {
    if n == 0 { Some((Seq::empty(), 0)) } else { match apply(items, args, (n - 1) as nat) { None => None, Some(p) => match items[n - 1] {
        SpecItem::Text(t) => Some((p.0.push(items[n - 1]), p.1)),
        SpecItem::Parameter(q) => if !no_value(q) { Some((p.0.push(items[n - 1]), p.1)) } else if p.1 >= args.len() { None } else { match fill(q, args[p.1]) { None => None, Some(r) => Some((p.0.push(SpecItem::Parameter(r)), p.1 + 1)) } },
    } } }
}
/// words and parameters in order, every parameter with the next argument
pub open spec fn full_words(ws: Seq<Seq<char>>, args: Seq<String>, n: nat) -> Option<(Seq<SpecItem>, int)> decreases n {
    if n == 0 { Some((Seq::empty(), 0)) } else { match full_words(ws, args, (n - 1) as nat) { None => None, Some(p) =>
        if is_text(ws[n - 1]) { Some((p.0.push(SpecItem::Text(string_of(ws[n - 1]))), p.1)) }
        else { match blank_arg(ws[n - 1]) { None => None, Some(q) => if p.1 >= args.len() { None } else { match fill(q, args[p.1]) { None => None, Some(r) => Some((p.0.push(SpecItem::Parameter(r)), p.1 + 1)) } } } }
    } }
}
pub open spec fn content_of(s: Seq<char>) -> Option<BlockContent> { match blank_words(words(s), words(s).len()) { Some(items) => Some(BlockContent { items: vec_of(items) }), None => None } }
pub open spec fn full_content(s: Seq<char>, args: Seq<String>) -> Option<BlockContent> { match full_words(words(s), args, words(s).len()) { Some(p) => Some(BlockContent { items: vec_of(p.0) }), None => None } }
pub open spec fn with_args(c: BlockContent, args: Seq<String>) -> Option<BlockContent> { match apply(c.items@, args, c.items@.len()) { Some(p) => Some(BlockContent { items: vec_of(p.0) }), None => None } }
/// the text of a word
pub open spec fn kind_text(p: Argument) -> Seq<char> { match p { Argument::String { name, value } => "%s"@, Argument::Number { name, value } => "%d"@, Argument::Boolean { name, value } => "%b"@, Argument::Menu { name, value } => "%m"@ } }
pub open spec fn arg_name(p: Argument) -> Option<String> { match p { Argument::String { name, value } => name, Argument::Number { name, value } => name, Argument::Boolean { name, value } => name, Argument::Menu { name, value } => Some(name) } }
pub open spec fn item_text(i: SpecItem) -> Seq<char> { match i { SpecItem::Text(t) => t@, SpecItem::Parameter(p) => kind_text(p) + (match arg_name(p) { Some(n) => seq!['.'] + n@, None => Seq::empty() }) } }
/// every word followed by a blank
pub open spec fn print_items(items: Seq<SpecItem>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { (print_items(items, (n - 1) as nat) + item_text(items[n - 1])).push(' ') } }
pub open spec fn content_text(c: BlockContent) -> Seq<char> { let t = print_items(c.items@, c.items@.len()); if t.len() == 0 { t } else { t.drop_last() } }
/// the parameters among the words
pub open spec fn params(items: Seq<SpecItem>, n: nat) -> Seq<Argument> decreases n { if n == 0 { Seq::empty() } else { match items[n - 1] { SpecItem::Text(t) => params(items, (n - 1) as nat), SpecItem::Parameter(p) => params(items, (n - 1) as nat).push(p) } } }
pub open spec fn emptied(p: Argument) -> Argument { match p { Argument::String { name, value } => Argument::String { name, value: ArgValue::Empty }, Argument::Number { name, value } => Argument::Number { name, value: ArgValue::Empty }, Argument::Boolean { name, value } => Argument::Boolean { name, value: ArgValue::Empty }, Argument::Menu { name, value } => Argument::Menu { name, value: ArgValue::Empty } } }
pub open spec fn emptied_items(items: Seq<SpecItem>) -> Seq<SpecItem> { items.map_values(|i: SpecItem| match i { SpecItem::Text(t) => i, SpecItem::Parameter(p) => SpecItem::Parameter(emptied(p)) }) }
pub proof fn blank_none(ws: Seq<Seq<char>>, k: nat, n: nat) requires k <= n, blank_words(ws, k) is None ensures blank_words(ws, n) is None decreases n { if k < n { blank_none(ws, k, (n - 1) as nat); } }
pub proof fn full_none(ws: Seq<Seq<char>>, args: Seq<String>, k: nat, n: nat) requires k <= n, full_words(ws, args, k) is None ensures full_words(ws, args, n) is None decreases n { if k < n { full_none(ws, args, k, (n - 1) as nat); } }
pub proof fn apply_none(items: Seq<SpecItem>, args: Seq<String>, k: nat, n: nat) requires k <= n, apply(items, args, k) is None ensures apply(items, args, n) is None decreases n { if k < n { apply_none(items, args, k, (n - 1) as nat); } }
/// a word that is no text has a kind
pub proof fn kind_there(w: Seq<char>) ensures !is_text(w) ==> w.len() >= 2 && w[0] == '%', !is_text(w) && w.len() > 2 && w[1] <= '\u{7f}' && w[2] == '.' ==> (byte_len(w) > 3 <==> w.len() > 3)
{
    reveal_strlit("%"); broadcast use vp_bytes;
    if starts(w, "%"@) { assert(w.take(1)[0] == w[0]); if w.len() == 1 { assert(w =~= "%"@); } }
    if w.len() == 3 && w[0] == '%' && w[2] == '.' && w[1] <= '\u{7f}' { assert(ascii(w)); }
}
pub proof fn ref_mark(a: Seq<char>) ensures starts(a, "@"@) ==> a.len() > 0 && a[0] == '@' && ascii(a.take(1)), a.len() > 0 && a[0] == '@' ==> starts(a, "@"@)
{
    reveal_strlit("@");
    if starts(a, "@"@) { assert(a.take(1)[0] == a[0]); assert(ascii(a.take(1))); }
    if a.len() > 0 && a[0] == '@' { assert(a.take(1) =~= "@"@); }
}
