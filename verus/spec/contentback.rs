/// every word followed by a blank
pub open spec fn cat(ws: Seq<Seq<char>>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { (cat(ws, (n - 1) as nat) + ws[n - 1]).push(' ') } }
pub proof fn cat_cons(a: Seq<char>, t: Seq<Seq<char>>, n: nat) requires n <= t.len() ensures cat(seq![a] + t, n + 1) == a.push(' ') + cat(t, n) decreases n
{
    let w = seq![a] + t;
    if n == 0 { assert(cat(w, 0) =~= Seq::empty()); assert(w[0] == a); assert(cat(w, 1) =~= a.push(' ') + cat(t, 0)) by { reveal_with_fuel(cat, 2); } }
    else { cat_cons(a, t, (n - 1) as nat); assert(w[n as int] == t[n - 1]); assert(cat(w, n + 1) =~= a.push(' ') + cat(t, n)); }
}
pub proof fn find_in(s: Seq<char>, p: Seq<char>, i: int) requires 0 <= i ensures match find_from(s, p, i) { Some(k) => i <= k && k + p.len() <= s.len() && k < s.len() && s.subrange(k, k + p.len()) == p, None => true } decreases s.len() - i
{ if i + p.len() <= s.len() && i < s.len() { if s.subrange(i, i + p.len()) != p { find_in(s, p, i + 1); } } }
/// the words put together again
pub proof fn cat_words(s: Seq<char>) ensures cat(words(s), words(s).len()) == s.push(' '), words(s).len() > 0 decreases s.len()
{
    reveal_strlit(" "); find_in(s, blank(), 0);
    match find(s, blank()) {
        None => { assert(words(s) =~= seq![s]); reveal_with_fuel(cat, 2); assert(cat(seq![s], 1) =~= s.push(' ')); }
        Some(i) => {
            let t = s.skip(i + 1);
            cat_words(t); cat_cons(s.take(i), words(t), words(t).len());
            assert(words(s) == seq![s.take(i)] + words(t));
            assert(s.subrange(i, i + 1)[0] == s[i]); assert(blank()[0] == ' ');
            assert(s.take(i).push(' ') + t.push(' ') =~= s.push(' '));
        }
    }
}
/// a word, or a parameter written %kind or %kind.name
pub open spec fn good_word(w: Seq<char>) -> bool { is_text(w) || w.len() == 2 || (w.len() > 3 && w[2] == '.') }
pub proof fn word_back(w: Seq<char>) requires good_word(w), !is_text(w), blank_arg(w) is Some ensures item_text(SpecItem::Parameter(blank_arg(w)->0)) == w
{
    broadcast use vp_views; reveal_strlit("%"); reveal_strlit("%s"); reveal_strlit("%d"); reveal_strlit("%b"); reveal_strlit("%m");
    kind_there(w);
    assert(w =~= item_text(SpecItem::Parameter(blank_arg(w)->0)));
}
pub proof fn fill_keeps(p: Argument, a: String) requires fill(p, a) is Some ensures item_text(SpecItem::Parameter(fill(p, a)->0)) == item_text(SpecItem::Parameter(p)), emptied(fill(p, a)->0) == emptied(p) { }
pub proof fn blank_empty(w: Seq<char>) ensures blank_arg(w) matches Some(p) ==> no_value(p) && emptied(p) == p { }
/// what reading the words gives, in terms of the words alone
pub proof fn full_is(ws: Seq<Seq<char>>, args: Seq<String>, n: nat) requires n <= ws.len()
    ensures
        full_words(ws, args, n) is Some ==> {
            let (items, k) = full_words(ws, args, n)->0;
            &&& blank_words(ws, n) is Some && emptied_items(items) == blank_words(ws, n)->0
            &&& items.len() == n && k == params(items, n).len() && k <= args.len()
            &&& forall|j: int| 0 <= j < k ==> fill(emptied(#[trigger] params(items, n)[j]), args[j]) == Some(params(items, n)[j])
            &&& forall|i: int| 0 <= i < n ==> (is_text(#[trigger] ws[i]) ==> items[i] == SpecItem::Text(string_of(ws[i]))) && (!is_text(ws[i]) ==> blank_arg(ws[i]) is Some && item_text(items[i]) == item_text(SpecItem::Parameter(blank_arg(ws[i])->0)))
        },
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        full_is(ws, args, m);
        if full_words(ws, args, n) is Some {
            let (items, k) = full_words(ws, args, n)->0; let (i0, k0) = full_words(ws, args, m)->0;
            blank_empty(ws[n - 1]);
            if !is_text(ws[n - 1]) { fill_keeps(blank_arg(ws[n - 1])->0, args[k0]); }
            assert(i0 =~= items.drop_last());
            params_ext(i0, items, m);
            assert(emptied_items(items) =~= blank_words(ws, n)->0) by { assert(emptied_items(items).drop_last() =~= emptied_items(i0)); }
        }
    }
}
pub proof fn params_ext(a: Seq<SpecItem>, b: Seq<SpecItem>, n: nat) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures params(a, n) == params(b, n) decreases n
{ if n > 0 { assert(a[n - 1] == b[n - 1]); params_ext(a, b, (n - 1) as nat); } }
pub proof fn blank_is(ws: Seq<Seq<char>>, n: nat) requires n <= ws.len(), blank_words(ws, n) is Some
    ensures blank_words(ws, n)->0.len() == n, forall|i: int| 0 <= i < n ==> blank_word(#[trigger] ws[i]) == Some(blank_words(ws, n)->0[i])
    decreases n
{ if n > 0 { blank_is(ws, (n - 1) as nat); } }
pub proof fn print_is(items: Seq<SpecItem>, ws: Seq<Seq<char>>, n: nat) requires n <= items.len(), n <= ws.len(), forall|i: int| 0 <= i < n ==> item_text(items[i]) == #[trigger] ws[i] ensures print_items(items, n) == cat(ws, n) decreases n
{ if n > 0 { assert(item_text(items[n - 1]) == ws[n - 1]); print_is(items, ws, (n - 1) as nat); } }
pub proof fn params_len(items: Seq<SpecItem>, n: nat) ensures params(items, n).len() <= n decreases n { if n > 0 { params_len(items, (n - 1) as nat); } }
/// printing what was read gives the text again
pub proof fn c15_text(s: Seq<char>, args: Seq<String>)
    requires forall|i: int| 0 <= i < words(s).len() ==> good_word(#[trigger] words(s)[i])
    ensures full_content(s, args) matches Some(c) ==> content_text(c) == s, content_of(s) matches Some(c) ==> content_text(c) == s
{
    broadcast use vp_views;
    let ws = words(s); let n = ws.len();
    cat_words(s);
    assert(s.push(' ').drop_last() =~= s);
    if let Some(c) = full_content(s, args) {
        full_is(ws, args, n);
        assert forall|i: int| 0 <= i < n implies item_text(c.items@[i]) == #[trigger] ws[i] by { assert(good_word(ws[i])); if !is_text(ws[i]) { word_back(ws[i]); } }
        print_is(c.items@, ws, n);
    }
    if let Some(c) = content_of(s) {
        blank_is(ws, n);
        assert forall|i: int| 0 <= i < n implies item_text(c.items@[i]) == #[trigger] ws[i] by { assert(good_word(ws[i])); assert(blank_word(ws[i]) == Some(c.items@[i])); if !is_text(ws[i]) { word_back(ws[i]); } }
        print_is(c.items@, ws, n);
    }
}
/// words in order; every parameter carries what its argument says
pub proof fn c15_read(s: Seq<char>, args: Seq<String>)
    ensures full_content(s, args) matches Some(c) ==> {
        &&& c.items@.len() == words(s).len()
        &&& forall|i: int| 0 <= i < words(s).len() ==> (is_text(#[trigger] words(s)[i]) ==> c.items@[i] == SpecItem::Text(string_of(words(s)[i]))) && (!is_text(words(s)[i]) ==> c.items@[i] is Parameter && Some(emptied(c.items@[i]->Parameter_0)) == blank_arg(words(s)[i]))
        &&& params(c.items@, c.items@.len()).len() <= args.len()
        &&& forall|j: int| 0 <= j < params(c.items@, c.items@.len()).len() ==> fill(emptied(#[trigger] params(c.items@, c.items@.len())[j]), args[j]) == Some(params(c.items@, c.items@.len())[j])
    },
{
    broadcast use vp_views;
    let ws = words(s); let n = ws.len();
    if let Some(c) = full_content(s, args) {
        full_is(ws, args, n); blank_is(ws, n);
        assert forall|i: int| 0 <= i < n && !is_text(#[trigger] ws[i]) implies c.items@[i] is Parameter && Some(emptied(c.items@[i]->Parameter_0)) == blank_arg(ws[i]) by {
            assert(blank_word(ws[i]) == Some(blank_words(ws, n)->0[i]));
            assert(emptied_items(c.items@)[i] == blank_words(ws, n)->0[i]);
            blank_empty(ws[i]);
        }
    }
}
/// it is an error exactly if a kind is unknown, arguments run out, or one cannot be read
pub open spec fn fills(q: Seq<Argument>, args: Seq<String>) -> bool { q.len() <= args.len() && forall|j: int| 0 <= j < q.len() ==> fill(#[trigger] q[j], args[j]) is Some }
pub proof fn c15_when_n(ws: Seq<Seq<char>>, args: Seq<String>, n: nat) requires n <= ws.len()
    ensures full_words(ws, args, n) is Some <==> blank_words(ws, n) is Some && fills(params(blank_words(ws, n)->0, n), args),
        full_words(ws, args, n) is Some ==> (full_words(ws, args, n)->0).1 == params(blank_words(ws, n)->0, n).len(),
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        c15_when_n(ws, args, m);
        if blank_words(ws, n) is Some {
            blank_is(ws, n); blank_is(ws, m);
            let b = blank_words(ws, n)->0; let b0 = blank_words(ws, m)->0;
            params_ext(b0, b, m);
            let q = params(b, n); let q0 = params(b0, m);
            blank_empty(ws[n - 1]);
            if !is_text(ws[n - 1]) {
                assert(q == q0.push(blank_arg(ws[n - 1])->0));
                if fills(q, args) { assert forall|j: int| 0 <= j < q0.len() implies fill(#[trigger] q0[j], args[j]) is Some by { assert(q[j] == q0[j]); } assert(fill(q[q0.len() as int], args[q0.len() as int]) is Some); }
                if full_words(ws, args, n) is Some { assert forall|j: int| 0 <= j < q.len() implies fill(#[trigger] q[j], args[j]) is Some by { if j < q0.len() { assert(q[j] == q0[j]); } } }
            } else { assert(q == q0); }
        } else { blank_next(ws, n); }
    }
}
pub proof fn blank_next(ws: Seq<Seq<char>>, n: nat) requires 0 < n, blank_words(ws, n) is None ensures blank_words(ws, (n - 1) as nat) is None || blank_word(ws[n - 1]) is None { }
pub proof fn c15_when(s: Seq<char>, args: Seq<String>)
    ensures full_content(s, args) is Some <==> (content_of(s) matches Some(c) && fills(params(c.items@, c.items@.len()), args))
{ broadcast use vp_views; c15_when_n(words(s), args, words(s).len()); if content_of(s) is Some { blank_is(words(s), words(s).len()); } }
/// reading in two steps is reading in one
pub proof fn two_n(ws: Seq<Seq<char>>, args: Seq<String>, items: Seq<SpecItem>, n: nat)
    requires n <= ws.len(), n <= items.len(), blank_words(ws, n) is Some, forall|i: int| 0 <= i < n ==> blank_words(ws, n)->0[i] == items[i]
    ensures apply(items, args, n) == full_words(ws, args, n)
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        blank_is(ws, n); blank_is(ws, m); blank_empty(ws[n - 1]);
        assert forall|i: int| 0 <= i < m implies blank_words(ws, m)->0[i] == items[i] by { assert(blank_words(ws, n)->0[i] == items[i]); }
        two_n(ws, args, items, m);
        assert(items[n - 1] == blank_words(ws, n)->0[n - 1]);
    }
}
pub proof fn c15_two(s: Seq<char>, args: Seq<String>) ensures content_of(s) matches Some(c) ==> with_args(c, args) == full_content(s, args), content_of(s) is None ==> full_content(s, args) is None
{
    broadcast use vp_views;
    if let Some(c) = content_of(s) { blank_is(words(s), words(s).len()); two_n(words(s), args, c.items@, words(s).len()); }
    else { c15_when(s, args); }
}
/// taking the arguments takes exactly the parameters, and the text stays
pub proof fn c15_take(c: BlockContent, d: BlockContent) requires d.items@ == emptied_items(c.items@) ensures content_text(d) == content_text(c)
{ take_n(c.items@, d.items@, c.items@.len()); }
pub proof fn take_n(a: Seq<SpecItem>, b: Seq<SpecItem>, n: nat) requires b == emptied_items(a), n <= a.len() ensures print_items(a, n) == print_items(b, n) decreases n { if n > 0 { take_n(a, b, (n - 1) as nat); } }
