// Stand-ins for the standard library and the crates the program uses. Everything in this module is an ASSUMED
// contract (external_body / axiom); the functions of the program are checked against them.
use vstd::prelude::*;

// ---------------------------------------------------------------- errors: only the fact of failing is kept
#[derive(Debug)]
pub struct VpErr;
#[verifier::external_body]
pub fn map_err<T, E>(r: Result<T, E>) -> (o: Result<T, VpErr>)
    ensures r matches Ok(v) ==> o == Ok::<T, VpErr>(v), r is Err ==> o is Err
{ unimplemented!() }
#[verifier::external_body]
pub fn ok_or<T>(r: Option<T>) -> (o: Result<T, VpErr>)
    ensures r matches Some(v) ==> o == Ok::<T, VpErr>(v), r is None ==> o is Err
{ unimplemented!() }
#[verifier::external_body]
pub fn ok<T, E>(r: Result<T, E>) -> (o: Option<T>)
    ensures r matches Ok(v) ==> o == Some(v), r is Err ==> o is None
{ unimplemented!() }
pub fn okv<T>(v: T) -> (o: Result<T, VpErr>) ensures o == Ok::<T, VpErr>(v) { Ok(v) }
#[verifier::external_body]
pub fn transpose<T, E>(r: Option<Result<T, E>>) -> (o: Result<Option<T>, VpErr>)
    ensures r is None ==> o == Ok::<Option<T>, VpErr>(None), r matches Some(Ok(v)) ==> o == Ok::<Option<T>, VpErr>(Some(v)), (r matches Some(Err(_))) ==> o is Err
{ unimplemented!() }
#[verifier::external_body]
pub fn panics() -> ! requires false { unimplemented!() }
pub fn inc(n: usize) -> (r: usize) requires n < usize::MAX ensures r == n + 1 { n + 1 }

// ---------------------------------------------------------------- values are determined by their views
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_string_of(s: String) ensures string_of(#[trigger] s@) == s;
pub broadcast axiom fn ax_string_view(s: Seq<char>) ensures (#[trigger] string_of(s))@ == s;
pub broadcast axiom fn ax_vec_of<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
pub broadcast axiom fn ax_str_of(a: &str, b: &str) requires a@ == b@ ensures #![trigger a@, b@] true;
pub broadcast axiom fn ax_vec_view<T>(s: Seq<T>) ensures (#[trigger] vec_of(s))@ == s;
pub broadcast proof fn add_empty<T>(a: Seq<T>, b: Seq<T>) ensures a.len() == 0 ==> #[trigger] (a + b) == b, b.len() == 0 ==> a + b == a { if a.len() == 0 { assert(a + b =~= b); } if b.len() == 0 { assert(a + b =~= a); } }
pub broadcast proof fn skip_none<T>(a: Seq<T>) ensures #[trigger] a.skip(0) == a { assert(a.skip(0) =~= a); }
pub broadcast group vp_views { ax_string_of, ax_string_view, ax_vec_of, ax_vec_view, add_empty, skip_none }

// ---------------------------------------------------------------- clone / to_owned
pub trait VpOwned { type O; spec fn own(&self) -> Self::O; fn vp_owned(&self) -> (r: Self::O) ensures r == self.own(); }
impl VpOwned for str { type O = String; open spec fn own(&self) -> String { string_of(self@) } #[verifier::external_body] fn vp_owned(&self) -> (r: String) { unimplemented!() } }
impl VpOwned for String { type O = String; open spec fn own(&self) -> String { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: String) { unimplemented!() } }
impl<T> VpOwned for Vec<T> { type O = Vec<T>; open spec fn own(&self) -> Vec<T> { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VpOwned for [T] { type O = Vec<T>; open spec fn own(&self) -> Vec<T> { vec_of(self@) } #[verifier::external_body] fn vp_owned(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VpOwned for Option<T> { type O = Option<T>; open spec fn own(&self) -> Option<T> { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: Option<T>) { unimplemented!() } }
impl VpOwned for u8 { type O = u8; open spec fn own(&self) -> u8 { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: u8) { unimplemented!() } }
impl VpOwned for u16 { type O = u16; open spec fn own(&self) -> u16 { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: u16) { unimplemented!() } }
impl VpOwned for u32 { type O = u32; open spec fn own(&self) -> u32 { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: u32) { unimplemented!() } }
impl VpOwned for u64 { type O = u64; open spec fn own(&self) -> u64 { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: u64) { unimplemented!() } }
impl VpOwned for i8 { type O = i8; open spec fn own(&self) -> i8 { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: i8) { unimplemented!() } }
impl VpOwned for i32 { type O = i32; open spec fn own(&self) -> i32 { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: i32) { unimplemented!() } }
impl VpOwned for usize { type O = usize; open spec fn own(&self) -> usize { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: usize) { unimplemented!() } }
impl VpOwned for bool { type O = bool; open spec fn own(&self) -> bool { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: bool) { unimplemented!() } }
impl VpOwned for char { type O = char; open spec fn own(&self) -> char { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: char) { unimplemented!() } }

pub trait VpCloned { type O; spec fn cl(&self) -> Self::O; fn vp_cloned(self) -> (r: Self::O) where Self: Sized ensures r == self.cl(); }
impl<'a, T: VpOwned<O = T>> VpCloned for Option<&'a T> { type O = Option<T>; open spec fn cl(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vp_cloned(self) -> (r: Option<T>) { unimplemented!() } }

// ---------------------------------------------------------------- text
pub trait VpText { spec fn text(&self) -> Seq<char>; }
impl VpText for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl VpText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<T: VpText + ?Sized> VpText for &T { open spec fn text(&self) -> Seq<char> { (*self).text() } }
#[verifier::external_body]
pub fn streq<A: VpText + ?Sized, B: VpText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.text() == b.text()) { unimplemented!() }
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// what `{}` / to_string print
pub trait VpDisp { spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vp_to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() } }
impl VpDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl VpDisp for u8 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VpDisp for u16 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VpDisp for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VpDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VpDisp for i32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VpDisp for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
/// a floating point number as text; reading it gives it again, unless it is not a number
pub uninterp spec fn f64_text(v: f64) -> Seq<char>;
pub uninterp spec fn f64_number(v: f64) -> bool;
impl VpDisp for f64 { open spec fn disp(&self) -> Seq<char> { f64_text(*self) } }
pub broadcast axiom fn ax_f64_text(v: f64) ensures (#[trigger] f64_text(v)).len() > 0, f64_text(v)[0] != '@', f64_number(v) ==> f64_of(f64_text(v)) == Some(v);
impl<T: VpDisp + ?Sized> VpDisp for &T { open spec fn disp(&self) -> Seq<char> { (*self).disp() } }
/// decimal digits of a number, and the number a text denotes
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub uninterp spec fn num_of(s: Seq<char>) -> Option<int>;
pub broadcast axiom fn ax_dec(n: int) ensures num_of(#[trigger] dec(n)) == Some(n), dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> ('0' <= #[trigger] dec(n)[i] <= '9' || dec(n)[i] == '-');
pub broadcast group vp_num { ax_dec }
/// digits with leading zeros, described for two and four places
pub open spec fn digit(n: int) -> char { (('0' as u32) + n) as char }
pub open spec fn pad2(n: int) -> Seq<char> { seq![digit(n / 10), digit(n % 10)] }
pub open spec fn pad4(n: int) -> Seq<char> { seq![digit(n / 1000), digit(n / 100 % 10), digit(n / 10 % 10), digit(n % 10)] }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub broadcast axiom fn ax_digits(s: Seq<char>) ensures #![trigger num_of(s)] s.len() > 0 && digits(s) ==> num_of(s) == Some(dval(s));
pub trait VpNum { spec fn n(&self) -> int; }
impl VpNum for i32 { open spec fn n(&self) -> int { *self as int } }
impl VpNum for u32 { open spec fn n(&self) -> int { *self as int } }
impl VpNum for u8 { open spec fn n(&self) -> int { *self as int } }
impl VpNum for u64 { open spec fn n(&self) -> int { *self as int } }
pub trait VpParse: Sized { spec fn of_text(s: Seq<char>) -> Option<Self>; }
impl VpParse for u8 { open spec fn of_text(s: Seq<char>) -> Option<u8> { match num_of(s) { Some(n) => if 0 <= n <= u8::MAX { Some(n as u8) } else { None }, None => None } } }
impl VpParse for u16 { open spec fn of_text(s: Seq<char>) -> Option<u16> { match num_of(s) { Some(n) => if 0 <= n <= u16::MAX { Some(n as u16) } else { None }, None => None } } }
impl VpParse for u32 { open spec fn of_text(s: Seq<char>) -> Option<u32> { match num_of(s) { Some(n) => if 0 <= n <= u32::MAX { Some(n as u32) } else { None }, None => None } } }
impl VpParse for i32 { open spec fn of_text(s: Seq<char>) -> Option<i32> { match num_of(s) { Some(n) => if i32::MIN <= n <= i32::MAX { Some(n as i32) } else { None }, None => None } } }
/// numbers and truth values in text: what they are is not described
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
impl VpParse for f64 { open spec fn of_text(s: Seq<char>) -> Option<f64> { f64_of(s) } }
impl VpParse for bool { open spec fn of_text(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } } }
#[verifier::external_body]
pub fn parse<T: VpParse, S: VpText + ?Sized>(s: &S) -> (r: Result<T, VpErr>)
    ensures r is Ok <==> T::of_text(s.text()) is Some, r matches Ok(v) ==> T::of_text(s.text()) == Some(v)
{ unimplemented!() }
/// format!
#[verifier::external_body]
pub struct VpFmt { x: () }
impl VpFmt {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: VpFmt) ensures r.out() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(self, s: &str) -> (r: VpFmt) ensures r.out() == self.out() + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: VpDisp + ?Sized>(self, t: &T) -> (r: VpFmt) ensures r.out() == self.out() + t.disp() { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String) ensures r@ == self.out() { unimplemented!() }
}
impl VpFmt {
    #[verifier::external_body]
    pub fn arg_02<T: VpNum>(self, t: &T) -> (r: VpFmt) ensures 0 <= t.n() <= 99 ==> r.out() == self.out() + pad2(t.n()) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg_04<T: VpNum>(self, t: &T) -> (r: VpFmt) ensures 0 <= t.n() <= 9999 ==> r.out() == self.out() + pad4(t.n()) { unimplemented!() }
}
/// `{:#010x}` of a 32-bit number: 0x and eight lower case digits
pub open spec fn hexdigit(n: int) -> char { if n < 10 { (('0' as u32) + n) as char } else { (('a' as u32) + n - 10) as char } }
pub open spec fn hexchar(v: u32, k: u32) -> char { hexdigit(((v >> k) & 15) as int) }
pub open spec fn hex8(v: u32) -> Seq<char> { seq![hexchar(v, 28), hexchar(v, 24), hexchar(v, 20), hexchar(v, 16), hexchar(v, 12), hexchar(v, 8), hexchar(v, 4), hexchar(v, 0)] }
impl VpFmt {
    #[verifier::external_body]
    pub fn arg_hex(self, t: &u32) -> (r: VpFmt) ensures r.out() == self.out() + seq!['0', 'x'] + hex8(*t) { unimplemented!() }
}
pub open spec fn hexdig(c: char) -> Option<int> {
    if '0' <= c <= '9' { Some(c as int - '0' as int) } else if 'a' <= c <= 'f' { Some(c as int - 'a' as int + 10) } else if 'A' <= c <= 'F' { Some(c as int - 'A' as int + 10) } else { None }
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexdig(#[trigger] s[i]) is Some }
pub open spec fn hexval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + (match hexdig(s.last()) { Some(d) => d, None => 0 }) } }
/// u32::from_str_radix(_, 16), described for texts of at most eight digits
#[verifier::external_body]
pub fn u32_from_str_radix<S: VpText + ?Sized>(s: &S, radix: u32) -> (r: Result<u32, VpErr>)
    requires radix == 16
    ensures 0 < s.text().len() <= 8 && all_hex(s.text()) ==> r is Ok && r->Ok_0 as int == hexval(s.text())
{ unimplemented!() }
/// the number of bytes of a text; one per character when all characters are ASCII
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= '\u{7f}' }
pub broadcast axiom fn ax_byte_len(s: Seq<char>) ensures #[trigger] byte_len(s) >= s.len(), byte_len(s) <= 4 * s.len(), ascii(s) ==> byte_len(s) == s.len();
/// the bytes of a text: ASCII bytes stand for themselves, other characters have no ASCII byte
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn ax_bytes(s: Seq<char>) ensures (#[trigger] bytes_of(s)).len() == byte_len(s), (forall|i: int| 0 <= i < bytes_of(s).len() ==> bytes_of(s)[i] < 128) <==> ascii(s), ascii(s) ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] bytes_of(s)[i] == s[i] as u8;
pub open spec fn upper(c: char) -> char { if 'a' <= c <= 'z' { (c as int - 32) as char } else { c } }
pub trait VpChar { spec fn ch(&self) -> char; #[verifier::external_body] fn vp_to_ascii_uppercase(&self) -> (r: char) ensures r == upper(self.ch()) { unimplemented!() } }
pub trait VpDigit { spec fn dig(&self) -> bool; #[verifier::external_body] fn vp_is_ascii_digit(&self) -> (r: bool) ensures r == self.dig() { unimplemented!() } }
impl VpDigit for u8 { open spec fn dig(&self) -> bool { 48 <= *self <= 57 } }
impl VpDigit for char { open spec fn dig(&self) -> bool { '0' <= *self <= '9' } }
impl VpChar for char { open spec fn ch(&self) -> char { *self } }
impl VpChar for &char { open spec fn ch(&self) -> char { **self } }
pub trait VpSign { spec fn neg(&self) -> bool; #[verifier::external_body] fn vp_is_negative(&self) -> (r: bool) ensures r == self.neg() { unimplemented!() } }
impl VpSign for i32 { open spec fn neg(&self) -> bool { *self < 0 } }
/// first place of a non-empty pattern at or after i
pub open spec fn find_from(s: Seq<char>, p: Seq<char>, i: int) -> Option<int> decreases s.len() - i {
    if i < 0 || i + p.len() > s.len() || i >= s.len() { None } else if s.subrange(i, i + p.len()) == p { Some(i) } else { find_from(s, p, i + 1) }
}
pub open spec fn find(s: Seq<char>, p: Seq<char>) -> Option<int> { find_from(s, p, 0) }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
/// the pieces between the occurrences of a non-empty pattern
pub open spec fn split(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    match find(s, p) { Some(i) => if 0 <= i && p.len() > 0 && i + p.len() <= s.len() { seq![s.take(i)] + split(s.skip(i + p.len()), p) } else { seq![s] }, None => seq![s] }
}
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
/// white space as trim understands it
pub uninterp spec fn white(c: char) -> bool;
pub broadcast axiom fn ax_white(c: char) ensures (c == ' ' || c == '\n' || c == '\t' || c == '\r') ==> #[trigger] white(c), ('!' <= c <= '~') ==> !white(c);
pub open spec fn trim_end_s(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { trim_end_s(s.drop_last()) } else { s } }
pub open spec fn trim_start_s(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { trim_start_s(s.skip(1)) } else { s } }
pub open spec fn trim_s(s: Seq<char>) -> Seq<char> { trim_end_s(trim_start_s(s)) }
pub trait VpStr: VpText {
    #[verifier::external_body]
    fn vp_byte_len(&self) -> (r: usize) ensures r as nat == byte_len(self.text()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_chars(&self) -> (r: VpIter<char>) ensures r.rem() == self.text() { unimplemented!() }
    #[verifier::external_body]
    fn vp_nth(&self, n: usize) -> (r: Option<char>) ensures r == (if n < self.text().len() { Some(self.text()[n as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn vp_starts_with<P: VpText + ?Sized>(&self, p: &P) -> (r: bool) ensures r == starts(self.text(), p.text()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_ends_with<P: VpText + ?Sized>(&self, p: &P) -> (r: bool) ensures r == ends(self.text(), p.text()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_strip_suffix<P: VpText + ?Sized>(&self, p: &P) -> (r: Option<&str>) ensures r is Some <==> ends(self.text(), p.text()), r matches Some(x) ==> x@ == self.text().take(self.text().len() - p.text().len()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_strip_prefix<P: VpText + ?Sized>(&self, p: &P) -> (r: Option<&str>) ensures r is Some <==> starts(self.text(), p.text()), r matches Some(x) ==> x@ == self.text().skip(p.text().len() as int) { unimplemented!() }
    #[verifier::external_body]
    fn vp_split<P: VpText + ?Sized>(&self, p: &P) -> (r: VpIter<&str>) requires p.text().len() > 0 ensures texts(r.rem()) == split(self.text(), p.text()), r.rem().len() <= u32::MAX - 4 { unimplemented!() }
    #[verifier::external_body]
    fn vp_split_once<P: VpText + ?Sized>(&self, p: &P) -> (r: Option<(&str, &str)>) requires p.text().len() > 0 ensures match find(self.text(), p.text()) { Some(i) => r is Some && (r->0).0@ == self.text().take(i) && (r->0).1@ == self.text().skip(i + p.text().len()), None => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn vp_trim(&self) -> (r: &str) ensures r@ == trim_s(self.text()) { unimplemented!() }
    #[verifier::external_body]
    fn vp_trim_end(&self) -> (r: &str) ensures r@ == trim_end_s(self.text()) { unimplemented!() }
    /// &s[n..], allowed here where the first n characters are ASCII (so that n is a character boundary)
    #[verifier::external_body]
    fn vp_from(&self, n: usize) -> (r: &str) requires n <= self.text().len(), ascii(self.text().take(n as int)) ensures r@ == self.text().skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range(&self, a: usize, b: usize) -> (r: &str) requires a <= b <= self.text().len(), ascii(self.text().take(b as int)) ensures r@ == self.text().subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body]
    fn vp_bytes(&self) -> (r: VpIter<u8>) ensures r.rem() == bytes_of(self.text()) { unimplemented!() }
    // nothing is assumed about what these answer
    #[verifier::external_body] fn vp_to_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn vp_to_uppercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn vp_to_ascii_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn vp_repeat(&self, n: usize) -> String { unimplemented!() }
    #[verifier::external_body] fn vp_replace<P: VpText + ?Sized, Q: VpText + ?Sized>(&self, p: &P, q: &Q) -> String { unimplemented!() }
    #[verifier::external_body] fn vp_replacen<P: VpText + ?Sized, Q: VpText + ?Sized>(&self, p: &P, q: &Q, n: usize) -> String { unimplemented!() }
    #[verifier::external_body] fn vp_eq_ignore_ascii_case<P: VpText + ?Sized>(&self, p: &P) -> bool { unimplemented!() }
    #[verifier::external_body] fn vp_find<P: VpText + ?Sized>(&self, p: &P) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn vp_rfind<P: VpText + ?Sized>(&self, p: &P) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn vp_rsplit_once<P: VpText + ?Sized>(&self, p: &P) -> Option<(&str, &str)> { unimplemented!() }
    #[verifier::external_body] fn vp_rsplit<P: VpText + ?Sized>(&self, p: &P) -> VpIter<&str> { unimplemented!() }
    #[verifier::external_body] fn vp_splitn<P: VpText + ?Sized>(&self, n: usize, p: &P) -> VpIter<&str> { unimplemented!() }
    #[verifier::external_body] fn vp_trim_matches<P: VpText + ?Sized>(&self, p: &P) -> &str { unimplemented!() }
    #[verifier::external_body] fn vp_trim_start_matches<P: VpText + ?Sized>(&self, p: &P) -> &str { unimplemented!() }
    #[verifier::external_body] fn vp_trim_end_matches<P: VpText + ?Sized>(&self, p: &P) -> &str { unimplemented!() }
    #[verifier::external_body] fn vp_lines(&self) -> (r: VpIter<&str>) ensures r.rem().len() <= u32::MAX { unimplemented!() }
    #[verifier::external_body] fn vp_split_whitespace(&self) -> VpIter<&str> { unimplemented!() }
}
impl VpText for char { open spec fn text(&self) -> Seq<char> { seq![*self] } }
impl VpStr for str {}
impl VpStr for String {}
impl<T: VpStr + ?Sized> VpStr for &T {}
pub trait VpPush<T> { fn vp_push(&mut self, t: T); }
impl VpPush<char> for String { #[verifier::external_body] fn vp_push(&mut self, t: char) ensures final(self)@ == old(self)@.push(t) { unimplemented!() } }
#[verifier::external_body]
pub fn push_str<S: VpText + ?Sized>(s: &mut String, t: &S) ensures final(s)@ == old(s)@ + t.text() { unimplemented!() }
#[verifier::external_body]
pub fn str_pop(s: &mut String) -> (r: Option<char>) ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@, old(s)@.len() > 0 ==> r == Some(old(s)@.last()) && final(s)@ == old(s)@.drop_last() { unimplemented!() }
pub trait VpEmpty { spec fn vp_none(&self) -> bool; #[verifier::external_body] fn vp_is_empty(&self) -> (r: bool) ensures r == self.vp_none() { unimplemented!() } }
impl<T> VpEmpty for Vec<T> { open spec fn vp_none(&self) -> bool { self@.len() == 0 } }
impl VpEmpty for str { open spec fn vp_none(&self) -> bool { self@.len() == 0 } }
impl VpEmpty for String { open spec fn vp_none(&self) -> bool { self@.len() == 0 } }

// ---------------------------------------------------------------- iterators: what is still to come
pub trait VpIterator { type Item; spec fn rem(&self) -> Seq<Self::Item>;
    /// how often a counting iterator in it has been asked (0 if there is none)
    spec fn steps(&self) -> nat;
    fn vp_next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).steps() < u32::MAX
        ensures
            final(self).steps() <= old(self).steps() + 1,
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpIter<T> { x: core::marker::PhantomData<T> }
impl<T> VpIter<T> { pub uninterp spec fn left(&self) -> Seq<T>; pub fn vp_loop_iter(self) -> (r: Self) ensures r == self { self } pub fn vp_into_iter(self) -> (r: Self) ensures r == self { self } }
impl<T> VpIterator for VpIter<T> { type Item = T; open spec fn rem(&self) -> Seq<T> { self.left() } open spec fn steps(&self) -> nat { 0 } #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl<T> VpIter<T> { #[verifier::external_body] pub fn vp_skip(self, n: usize) -> (r: VpIter<T>) ensures r.rem() == (if n <= self.rem().len() { self.rem().skip(n as int) } else { Seq::empty() }) { unimplemented!() } }
impl<T> VpIter<T> { #[verifier::external_body] pub fn vp_chain<V: VpVec<T>>(self, v: V) -> (r: VpIter<T>) ensures r.rem() == self.rem() + v.els() { unimplemented!() } }
impl<T> VpIter<T> {
    #[verifier::external_body] pub fn vp_peekable(self) -> (r: VpIter<T>) ensures r.rem() == self.rem() { unimplemented!() }
    #[verifier::external_body] pub fn vp_peek(&mut self) -> (r: Option<&T>) ensures final(self).rem() == old(self).rem(), r is Some <==> old(self).rem().len() > 0, r matches Some(x) ==> *x == old(self).rem()[0] { unimplemented!() }
}
pub trait VpEnds<T> { spec fn ends(&self) -> Seq<T>;
    #[verifier::external_body] fn vp_first(&self) -> (r: Option<&T>) ensures r is Some <==> self.ends().len() > 0, r matches Some(x) ==> *x == self.ends()[0] { unimplemented!() }
    #[verifier::external_body] fn vp_last(&self) -> (r: Option<&T>) ensures r is Some <==> self.ends().len() > 0, r matches Some(x) ==> *x == self.ends().last() { unimplemented!() }
}
impl<T> VpEnds<T> for Vec<T> { open spec fn ends(&self) -> Seq<T> { self@ } }
/// Vec::drain(..)
#[verifier::external_body]
pub fn vp_drain<T>(v: &mut Vec<T>) -> (r: VpIter<T>) ensures r.rem() == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
pub trait VpVec<T> { spec fn els(&self) -> Seq<T>;
    fn vp_loop_iter(self) -> (r: VpIter<T>) where Self: Sized ensures r.rem() == self.els();
    fn vp_into_iter(self) -> (r: VpIter<T>) where Self: Sized ensures r.rem() == self.els();
}
impl<T> VpVec<T> for Vec<T> { open spec fn els(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_loop_iter(self) -> (r: VpIter<T>) { unimplemented!() }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIter<T>) { unimplemented!() } }
/// references to the elements of a sequence
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VpVec<&'a T> for &'a Vec<T> { open spec fn els(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vp_loop_iter(self) -> (r: VpIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIter<&'a T>) { unimplemented!() } }
impl<'a, K, V> VpVec<(&'a K, &'a V)> for &'a LinkedHashMap<K, V> { open spec fn els(&self) -> Seq<(&'a K, &'a V)> { Seq::new(self@.len(), |i: int| (&self@[i].0, &self@[i].1)) }
    #[verifier::external_body] fn vp_loop_iter(self) -> (r: VpIter<(&'a K, &'a V)>) { unimplemented!() }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIter<(&'a K, &'a V)>) { unimplemented!() } }
pub trait VpIterable<T> { #[verifier::external_body] fn vp_iter<'a>(&'a self) -> (r: VpIter<&'a T>) ensures r.rem() == refs(self.elems()) { unimplemented!() } spec fn elems(&self) -> Seq<T>; }
impl<T> VpIterable<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } }
/// iter_mut: current and final values of the elements still to come
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIterMut<'a, T> { x: &'a mut Vec<T> }
impl<'a, T> VpIterMut<'a, T> {
    pub uninterp spec fn cur(&self) -> Seq<T>;
    pub uninterp spec fn fin(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vp_next(&mut self) -> (r: Option<&'a mut T>)
        ensures
            old(self).cur().len() == 0 ==> r is None && final(self).cur() == old(self).cur() && final(self).fin() == old(self).fin(),
            old(self).cur().len() > 0 ==> r is Some && *r->0 == old(self).cur()[0] && *final(r->0) == old(self).fin()[0] && final(self).cur() == old(self).cur().skip(1) && final(self).fin() == old(self).fin().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_drop(self) ensures self.cur() == self.fin() { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_iter_mut<'a, T>(v: &'a mut Vec<T>) -> (r: VpIterMut<'a, T>)
    ensures r.cur() == old(v)@, final(v)@ == r.fin(), r.fin().len() == r.cur().len()
{ unimplemented!() }

// ---------------------------------------------------------------- keyed maps
/// how a borrowed key names an owned one
pub trait VpKey<K> { spec fn key(&self) -> K; }
impl<K> VpKey<K> for K { open spec fn key(&self) -> K { *self } }
impl VpKey<String> for str { open spec fn key(&self) -> String { string_of(self@) } }
pub open spec fn lhm_get<K, V>(s: Seq<(K, V)>, k: K) -> Option<V> decreases s.len() { if s.len() == 0 { None } else if s.last().0 == k { Some(s.last().1) } else { lhm_get(s.drop_last(), k) } }
pub open spec fn lhm_del<K, V>(s: Seq<(K, V)>, k: K) -> Seq<(K, V)> decreases s.len() { if s.len() == 0 { s } else if s.last().0 == k { s.drop_last() } else { lhm_del(s.drop_last(), k).push(s.last()) } }
pub open spec fn lhm_put<K, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> { lhm_del(s, k).push((k, v)) }
pub open spec fn lhm_ok<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
/// a map that keeps the order of insertion (ritelinked); inserting under a key that is there moves it to the end
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct LinkedHashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
pub uninterp spec fn lhm_of<K, V>(s: Seq<(K, V)>) -> LinkedHashMap<K, V>;
impl<K, V> LinkedHashMap<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == lhm_put(old(self)@, k, v), r == lhm_get(old(self)@, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VpKey<K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == lhm_del(old(self)@, k.key()), r == lhm_get(old(self)@, k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VpKey<K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures r is Some <==> lhm_get(self@, k.key()) is Some, r matches Some(v) ==> lhm_get(self@, k.key()) == Some(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VpKey<K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == (lhm_get(self@, k.key()) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_front(&self) -> (r: Option<(&K, &V)>) ensures r is Some <==> self@.len() > 0, r matches Some(e) ==> self@[0] == (*e.0, *e.1) { unimplemented!() }
    /// entry(k).or_insert_with(|| d): an entry that is there moves to the end
    #[verifier::external_body]
    pub fn vp_entry(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (match lhm_get(old(self)@, k) { Some(v) => v, None => d }), final(self)@ == lhm_put(old(self)@, k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: VpIter<(K, V)>) ensures r.rem() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_loop_iter(self) -> (r: VpIter<(K, V)>) ensures r.rem() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter(&self) -> (r: VpIter<(&K, &V)>) ensures r.rem() == Seq::new(self@.len(), |i: int| (&self@[i].0, &self@[i].1)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_values(&self) -> (r: VpIter<&V>) ensures r.rem() == Seq::new(self@.len(), |i: int| &self@[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl<K, V> Default for LinkedHashMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() } }
pub broadcast axiom fn ax_lhm_of<K, V>(m: LinkedHashMap<K, V>) ensures lhm_of(#[trigger] m@) == m, lhm_ok(m@);
pub broadcast axiom fn ax_lhm_view<K, V>(s: Seq<(K, V)>) requires lhm_ok(s) ensures (#[trigger] lhm_of(s))@ == s;
pub broadcast group vp_maps { ax_lhm_of, ax_lhm_view, ax_hm_of }
pub open spec fn lhm_has<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
/// what the entries of a map are after inserting, removing
pub proof fn lhm_get_del<K, V>(s: Seq<(K, V)>, k: K, j: K) requires lhm_ok(s) ensures lhm_get(lhm_del(s, k), j) == (if j == k { None } else { lhm_get(s, j) }), lhm_ok(lhm_del(s, k)), forall|i: int| 0 <= i < lhm_del(s, k).len() ==> exists|m: int| 0 <= m < s.len() && s[m] == #[trigger] lhm_del(s, k)[i], lhm_del(s, k).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(lhm_ok(t));
        if s.last().0 == k {
            if j == k { if lhm_get(t, j) is Some { let i = lhm_get_ix(t, j); assert(s[i].0 == s[s.len() - 1].0); } }
        } else {
            lhm_get_del(t, k, j);
            let d = lhm_del(t, k);
            assert(d.push(s.last()).drop_last() =~= d);
            assert forall|i: int, l: int| 0 <= i < l < d.push(s.last()).len() implies (#[trigger] d.push(s.last())[i]).0 != (#[trigger] d.push(s.last())[l]).0 by {
                if l == d.len() { let m = choose|m: int| 0 <= m < t.len() && t[m] == d[i]; assert(s[m].0 != s[s.len() - 1].0); }
            }
            assert forall|i: int| 0 <= i < d.push(s.last()).len() implies exists|m: int| 0 <= m < s.len() && s[m] == #[trigger] d.push(s.last())[i] by {
                if i < d.len() { let m = choose|m: int| 0 <= m < t.len() && t[m] == d[i]; assert(s[m] == d[i]); } else { assert(s[s.len() - 1] == d.push(s.last())[i]); }
            }
        }
    }
}
pub proof fn lhm_get_ix<K, V>(s: Seq<(K, V)>, k: K) -> (i: int) requires lhm_get(s, k) is Some ensures 0 <= i < s.len(), s[i].0 == k, lhm_get(s, k) == Some(s[i].1) decreases s.len()
{ if s.last().0 == k { s.len() - 1 } else { lhm_get_ix(s.drop_last(), k) } }
pub proof fn lhm_get_put<K, V>(s: Seq<(K, V)>, k: K, v: V, j: K) requires lhm_ok(s) ensures lhm_get(lhm_put(s, k, v), j) == (if j == k { Some(v) } else { lhm_get(s, j) }), lhm_ok(lhm_put(s, k, v))
{
    lhm_get_del(s, k, j);
    let d = lhm_del(s, k);
    assert(d.push((k, v)).drop_last() =~= d);
    assert forall|i: int, l: int| 0 <= i < l < d.push((k, v)).len() implies (#[trigger] d.push((k, v))[i]).0 != (#[trigger] d.push((k, v))[l]).0 by {
        if l == d.len() && d[i].0 == k { lhm_get_some(d, i); lhm_get_del(s, k, k); }
    }
}
pub proof fn lhm_get_some<K, V>(s: Seq<(K, V)>, i: int) requires 0 <= i < s.len() ensures lhm_get(s, s[i].0) is Some decreases s.len()
{ if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); lhm_get_some(s.drop_last(), i); } }
pub proof fn lhm_del_none<K, V>(s: Seq<(K, V)>, k: K) requires lhm_get(s, k) is None ensures lhm_del(s, k) == s decreases s.len()
{ if s.len() > 0 { lhm_del_none(s.drop_last(), k); assert(s.drop_last().push(s.last()) =~= s); } }
/// std's HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
pub uninterp spec fn hm_of<K, V>(s: Map<K, V>) -> HashMap<K, V>;
pub broadcast axiom fn ax_hm_of<K, V>(m: HashMap<K, V>) ensures hm_of(#[trigger] m@) == m;
/// the values of a map in some order
pub open spec fn hm_listing<K, V>(m: Map<K, V>, s: Seq<V>, ks: Seq<K>) -> bool { ks.no_duplicates() && ks.to_set() == m.dom() && s.len() == ks.len() && forall|i: int| 0 <= i < s.len() ==> s[i] == m[#[trigger] ks[i]] }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VpKey<K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.key()), r == (if old(self)@.dom().contains(k.key()) { Some(old(self)@[k.key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_values(self) -> (r: VpIter<V>) ensures exists|ks: Seq<K>| hm_listing(self@, r.rem(), ks) { unimplemented!() }
}

// ---------------------------------------------------------------- paths; the file system is not changed while a function runs
#[verifier::external_body]
pub struct PathBuf { x: () }
pub type Path = PathBuf;
#[verifier::external_body]
pub struct VpOsStr { x: () }
pub uninterp spec fn os_text(s: VpOsStr) -> Option<Seq<char>>;
pub uninterp spec fn path_exists(p: PathBuf) -> bool;
pub uninterp spec fn path_parent(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn path_last(p: PathBuf) -> Option<VpOsStr>;
impl PathBuf {
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == path_exists(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PathBuf>) ensures r is Some <==> path_parent(*self) is Some, r matches Some(p) ==> path_parent(*self) == Some(*p) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&VpOsStr>) ensures r is Some <==> path_last(*self) is Some, r matches Some(p) ==> path_last(*self) == Some(*p) { unimplemented!() }
}
impl VpOsStr { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> os_text(*self) is Some, r matches Some(p) ==> os_text(*self) == Some(p@) { unimplemented!() } }
impl VpOwned for PathBuf { type O = PathBuf; open spec fn own(&self) -> PathBuf { *self } #[verifier::external_body] fn vp_owned(&self) -> (r: PathBuf) { unimplemented!() } }
/// rand::random: any value
#[verifier::external_body]
pub fn random<T>() -> T { unimplemented!() }

// ---------------------------------------------------------------- bytes, files, AES
/// the bytes of a text, and the text that bytes are (if they are UTF-8)
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;
pub broadcast axiom fn ax_utf8(s: Seq<char>) ensures utf8_text(#[trigger] utf8(s)) == Some(s), utf8(s).len() == byte_len(s);
pub broadcast group vp_bytes { ax_utf8, ax_byte_len }
#[verifier::external_body]
pub fn str_bytes<S: VpText + ?Sized>(s: &S) -> (r: &[u8]) ensures r@ == utf8(s.text()) { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, VpErr>) ensures r is Ok <==> utf8_text(v@) is Some, r matches Ok(s) ==> utf8_text(v@) == Some(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vec_from<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
/// the bytes of a file while nothing has been written, and the fact of having written
pub uninterp spec fn file_bytes(p: PathBuf) -> Option<Seq<u8>>;
pub uninterp spec fn wrote(p: PathBuf, b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn fs_read(p: &PathBuf) -> (r: Result<Vec<u8>, VpErr>) ensures r is Ok <==> file_bytes(*p) is Some, r matches Ok(v) ==> file_bytes(*p) == Some(v@) { unimplemented!() }
#[verifier::external_body]
pub fn fs_write(p: &PathBuf, b: Vec<u8>) -> (r: Result<(), VpErr>) ensures r is Ok ==> wrote(*p, b@) { unimplemented!() }
/// block_modes' CBC mode; only AES-128 with PKCS#7 padding is described
pub struct Aes128;
pub struct Pkcs7;
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(P)]
pub struct Cbc<C, P> { x: core::marker::PhantomData<(C, P)> }
pub uninterp spec fn aes_enc(key: Seq<u8>, iv: Seq<u8>, d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn aes_dec(key: Seq<u8>, iv: Seq<u8>, d: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_aes(key: Seq<u8>, iv: Seq<u8>, d: Seq<u8>) ensures aes_dec(key, iv, #[trigger] aes_enc(key, iv, d)) == Some(d);
impl Cbc<Aes128, Pkcs7> {
    pub uninterp spec fn keys(&self) -> (Seq<u8>, Seq<u8>);
    #[verifier::external_body]
    pub fn new_from_slices(key: &[u8], iv: &[u8]) -> (r: Result<Self, VpErr>) ensures r is Ok <==> key@.len() == 16 && iv@.len() == 16, r matches Ok(c) ==> c.keys() == (key@, iv@) { unimplemented!() }
    #[verifier::external_body]
    pub fn encrypt_vec(self, d: &[u8]) -> (r: Vec<u8>) ensures r@ == aes_enc(self.keys().0, self.keys().1, d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn decrypt_vec(self, d: &[u8]) -> (r: Result<Vec<u8>, VpErr>) ensures r is Ok <==> aes_dec(self.keys().0, self.keys().1, d@) is Some, r matches Ok(v) ==> aes_dec(self.keys().0, self.keys().1, d@) == Some(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn decrypt(self, d: &mut Vec<u8>) -> (r: Result<&[u8], VpErr>) ensures r is Ok <==> aes_dec(self.keys().0, self.keys().1, old(d)@) is Some, r matches Ok(v) ==> aes_dec(self.keys().0, self.keys().1, old(d)@) == Some(v@) { unimplemented!() }
}

// ---------------------------------------------------------------- JSON: the value tree between a type and its text
/// object keys and variant names are numbered by the extraction (equal text, equal number)
/// (Int: the integers of 64 bits; longer ones are read as floating point)
pub enum J { Null, Bool(bool), Int(int), Flt(f32), Str(Seq<char>), Name(int), Arr(Seq<J>), Obj(IMap<int, J>) }
pub trait VpCodec: Sized {
    /// the tree serialization makes of a value; None if serialization is an error
    spec fn enc(&self) -> Option<J>;
    /// the value deserialization makes of a tree; None if it is an error
    spec fn dec(j: J) -> Option<Self>;
    /// the value of a field that is not there, if it may be missing
    spec fn absent() -> Option<Self>;
    /// values JSON can carry
    spec fn good(&self) -> bool;
    proof fn rt(&self) requires self.good() ensures self.enc() matches Some(j) ==> Self::dec(j) == Some(*self);
}
pub open spec fn jget<T: VpCodec>(m: IMap<int, J>, k: int) -> Option<T> { if m.dom().contains(k) { T::dec(m[k]) } else { T::absent() } }
impl VpCodec for String { open spec fn enc(&self) -> Option<J> { Some(J::Str(self@)) } open spec fn dec(j: J) -> Option<String> { match j { J::Str(s) => Some(string_of(s)), J::Name(n) => Some(string_of(name_text(n))), _ => None } } open spec fn absent() -> Option<String> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { broadcast use vp_views; } }
impl VpCodec for bool { open spec fn enc(&self) -> Option<J> { Some(J::Bool(*self)) } open spec fn dec(j: J) -> Option<bool> { match j { J::Bool(s) => Some(s), _ => None } } open spec fn absent() -> Option<bool> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
/// finite numbers
pub uninterp spec fn flt_ok(f: f32) -> bool;
pub uninterp spec fn int_flt(n: int) -> f32;
/// the text of a variant's name
pub uninterp spec fn name_text(n: int) -> Seq<char>;
impl VpCodec for f32 { open spec fn enc(&self) -> Option<J> { Some(if flt_ok(*self) { J::Flt(*self) } else { J::Null }) } open spec fn dec(j: J) -> Option<f32> { match j { J::Flt(s) => Some(s), J::Int(n) => Some(int_flt(n)), _ => None } } open spec fn absent() -> Option<f32> { None } open spec fn good(&self) -> bool { flt_ok(*self) } proof fn rt(&self) { } }
impl VpCodec for u8 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<u8> { match j { J::Int(n) => if u8::MIN <= n <= u8::MAX { Some(n as u8) } else { None }, _ => None } } open spec fn absent() -> Option<u8> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl VpCodec for u16 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<u16> { match j { J::Int(n) => if u16::MIN <= n <= u16::MAX { Some(n as u16) } else { None }, _ => None } } open spec fn absent() -> Option<u16> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl VpCodec for u32 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<u32> { match j { J::Int(n) => if u32::MIN <= n <= u32::MAX { Some(n as u32) } else { None }, _ => None } } open spec fn absent() -> Option<u32> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl VpCodec for u64 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<u64> { match j { J::Int(n) => if u64::MIN <= n <= u64::MAX { Some(n as u64) } else { None }, _ => None } } open spec fn absent() -> Option<u64> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl VpCodec for i8 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<i8> { match j { J::Int(n) => if i8::MIN <= n <= i8::MAX { Some(n as i8) } else { None }, _ => None } } open spec fn absent() -> Option<i8> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl VpCodec for i64 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<i64> { match j { J::Int(n) => if i64::MIN <= n <= i64::MAX { Some(n as i64) } else { None }, _ => None } } open spec fn absent() -> Option<i64> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl VpCodec for i16 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<i16> { match j { J::Int(n) => if i16::MIN <= n <= i16::MAX { Some(n as i16) } else { None }, _ => None } } open spec fn absent() -> Option<i16> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl VpCodec for i32 { open spec fn enc(&self) -> Option<J> { Some(J::Int(*self as int)) } open spec fn dec(j: J) -> Option<i32> { match j { J::Int(n) => if i32::MIN <= n <= i32::MAX { Some(n as i32) } else { None }, _ => None } } open spec fn absent() -> Option<i32> { None } open spec fn good(&self) -> bool { true } proof fn rt(&self) { } }
impl<T: VpCodec> VpCodec for Option<T> {
    open spec fn enc(&self) -> Option<J> { match *self { Some(x) => x.enc(), None => Some(J::Null) } }
    open spec fn dec(j: J) -> Option<Option<T>> { match j { J::Null => Some(None), _ => match T::dec(j) { Some(x) => Some(Some(x)), None => None } } }
    open spec fn absent() -> Option<Option<T>> { Some(None) }
    open spec fn good(&self) -> bool { match *self { Some(x) => x.good() && x.enc() != Some(J::Null), None => true } }
    proof fn rt(&self) { if let Some(x) = *self { x.rt(); } }
}
pub open spec fn enc_all<T: VpCodec>(s: Seq<T>) -> Seq<J> { s.map_values(|x: T| x.enc()->0) }
pub open spec fn dec_all<T: VpCodec>(s: Seq<J>) -> Seq<T> { s.map_values(|x: J| T::dec(x)->0) }
impl<T: VpCodec> VpCodec for Vec<T> {
    open spec fn enc(&self) -> Option<J> { if forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).enc() is Some { Some(J::Arr(enc_all(self@))) } else { None } }
    open spec fn dec(j: J) -> Option<Vec<T>> { match j { J::Arr(s) => if forall|i: int| 0 <= i < s.len() ==> T::dec(#[trigger] s[i]) is Some { Some(vec_of(dec_all(s))) } else { None }, _ => None } }
    open spec fn absent() -> Option<Vec<T>> { None }
    open spec fn good(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).good() }
    proof fn rt(&self) {
        broadcast use vp_views;
        if let Some(J::Arr(s)) = self.enc() {
            assert forall|i: int| 0 <= i < s.len() implies T::dec(#[trigger] s[i]) == Some(self@[i]) by { self@[i].rt(); assert(self@[i].enc() is Some); }
            assert(dec_all::<T>(s) =~= self@);
        }
    }
}
/// serde_json: the text of a tree, and what a text is read as
pub uninterp spec fn jtext(j: J) -> Seq<char>;
pub uninterp spec fn jread<T: VpCodec>(s: Seq<char>) -> Option<T>;
pub axiom fn ax_json<T: VpCodec>(x: T) requires x.enc() is Some ensures jread::<T>(jtext(x.enc()->0)) == T::dec(x.enc()->0);
/// compact JSON: no line breaks; objects stand in braces
pub broadcast axiom fn ax_jtext(j: J) ensures !(#[trigger] jtext(j)).contains('\n'), jtext(j).len() > 0, j is Obj ==> jtext(j).len() >= 2 && jtext(j)[0] == '{' && jtext(j).last() == '}';
pub broadcast group vp_json { ax_jtext }
#[verifier::external_body]
pub fn json_from_str<T: VpCodec>(s: &str) -> (r: Result<T, VpErr>) ensures r is Ok <==> jread::<T>(s@) is Some, r matches Ok(x) ==> jread::<T>(s@) == Some(x) { unimplemented!() }
#[verifier::external_body]
pub fn json_to_string<T: VpCodec>(x: &T) -> (r: Result<String, VpErr>) ensures r is Ok <==> x.enc() is Some, r matches Ok(s) ==> s@ == jtext(x.enc()->0) { unimplemented!() }
/// one step of serde's data model: a serializer makes one tree, a deserializer holds one
pub struct VpJ { pub ghost j: J }
pub struct VpSer { x: () }
impl VpSer {
    #[verifier::external_body] pub fn serialize_u8(self, n: u8) -> (r: Result<VpJ, VpErr>) ensures r is Ok, r->Ok_0.j == J::Int(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_i8(self, n: i8) -> (r: Result<VpJ, VpErr>) ensures r is Ok, r->Ok_0.j == J::Int(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_u16(self, n: u16) -> (r: Result<VpJ, VpErr>) ensures r is Ok, r->Ok_0.j == J::Int(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_u32(self, n: u32) -> (r: Result<VpJ, VpErr>) ensures r is Ok, r->Ok_0.j == J::Int(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_i32(self, n: i32) -> (r: Result<VpJ, VpErr>) ensures r is Ok, r->Ok_0.j == J::Int(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_bool(self, n: bool) -> (r: Result<VpJ, VpErr>) ensures r is Ok, r->Ok_0.j == J::Bool(n) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_str(self, s: &str) -> (r: Result<VpJ, VpErr>) ensures r is Ok, r->Ok_0.j == J::Str(s@) { unimplemented!() }
}
pub struct VpDe { pub ghost j: J }
#[verifier::external_body]
pub fn de<T: VpCodec>(d: VpDe) -> (r: Result<T, VpErr>) ensures r is Ok <==> T::dec(d.j) is Some, r matches Ok(x) ==> T::dec(d.j) == Some(x) { unimplemented!() }

/// what a self-describing value is offered to a visitor as
pub enum VpAny { I(i64), U(u64), F(f64), B(bool), S(String), Other }
pub uninterp spec fn flt64(f: f32) -> f64;
#[verifier::external_body]
pub fn de_any(d: VpDe) -> (r: VpAny)
    ensures match d.j { J::Int(n) => if i64::MIN <= n < 0 { r == VpAny::I(n as i64) } else if 0 <= n <= u64::MAX { r == VpAny::U(n as u64) } else { r == VpAny::Other }, J::Flt(f) => r == VpAny::F(flt64(f)), J::Bool(b) => r == VpAny::B(b), J::Str(s) => r == VpAny::S(string_of(s)), J::Name(n) => r == VpAny::S(string_of(name_text(n))), _ => r == VpAny::Other }
{ unimplemented!() }
/// `as` between number types
pub uninterp spec fn f_i64(n: i64) -> f64;
pub uninterp spec fn f_i32(f: f64) -> i32;
pub open spec fn clamp32(n: int) -> i32 { if n < i32::MIN { i32::MIN } else if n > i32::MAX { i32::MAX } else { n as i32 } }
/// rounding to a double never crosses a bound of i32, and is exact between them
pub broadcast axiom fn ax_f64(n: i64) ensures f_i32(#[trigger] f_i64(n)) == clamp32(n as int);
#[verifier::external_body] pub fn i64_f64(n: i64) -> (r: f64) ensures r == f_i64(n) { unimplemented!() }
#[verifier::external_body] pub fn f64_i32(f: f64) -> (r: i32) ensures r == f_i32(f) { unimplemented!() }
pub open spec fn wrap_u32(n: int) -> u32 { if n < 0 { (n + 0x1_0000_0000) as u32 } else { n as u32 } }
pub open spec fn wrap_i32(n: int) -> i32 { if n > i32::MAX { (n - 0x1_0000_0000) as i32 } else { n as i32 } }
pub open spec fn wrap_u64(n: int) -> u64 { if n < 0 { (n + 0x1_0000_0000_0000_0000) as u64 } else { n as u64 } }
pub open spec fn wrap_i64(n: int) -> i64 { if n > i64::MAX { (n - 0x1_0000_0000_0000_0000) as i64 } else { n as i64 } }
#[verifier::external_body] pub fn i32_u32(n: i32) -> (r: u32) ensures r == wrap_u32(n as int) { unimplemented!() }
#[verifier::external_body] pub fn u32_i32(n: u32) -> (r: i32) ensures r == wrap_i32(n as int) { unimplemented!() }
#[verifier::external_body] pub fn i64_u64(n: i64) -> (r: u64) ensures r == wrap_u64(n as int) { unimplemented!() }
#[verifier::external_body] pub fn u64_i64(n: u64) -> (r: i64) ensures r == wrap_i64(n as int) { unimplemented!() }
// ---------------------------------------------------------------- dates (chrono): civil time in UTC
pub struct Civil { pub y: int, pub mo: int, pub d: int, pub h: int, pub mi: int, pub s: int }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn month_len(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
pub open spec fn ymd_ok(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= month_len(y, m) }
pub open spec fn civil_ok(c: Civil) -> bool { ymd_ok(c.y, c.mo, c.d) && 0 <= c.h < 24 && 0 <= c.mi < 60 && 0 <= c.s < 60 }
/// days since 1970-01-01 in the proleptic Gregorian calendar
pub open spec fn days_of(y: int, m: int, d: int) -> int {
    let yy = if m <= 2 { y - 1 } else { y };
    let mp = if m > 2 { m - 3 } else { m + 9 };
    365 * yy + yy / 4 - yy / 100 + yy / 400 + (153 * mp + 2) / 5 + d - 1 - 719468
}
pub open spec fn secs_of(c: Civil) -> int { days_of(c.y, c.mo, c.d) * 86400 + c.h * 3600 + c.mi * 60 + c.s }
pub uninterp spec fn civil(n: int) -> Civil;
/// the years 0 to 9999
pub open spec fn year4(n: int) -> bool { -62167219200 <= n <= 253402300799 }
#[verifier::external_body] pub struct VpDate { x: () }
#[verifier::external_body] pub struct VpDateTime { x: () }
impl VpDate {
    pub uninterp spec fn ymd(&self) -> (int, int, int);
    #[verifier::external_body] pub fn and_hms_opt(self, h: u32, m: u32, s: u32) -> (r: Option<VpDateTime>) ensures r is Some <==> h < 24 && m < 60 && s < 60, r matches Some(t) ==> t.civil() == (Civil { y: self.ymd().0, mo: self.ymd().1, d: self.ymd().2, h: h as int, mi: m as int, s: s as int }) { unimplemented!() }
}
#[verifier::external_body] pub fn date_from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<VpDate>) requires 0 <= y <= 9999 ensures r is Some <==> ymd_ok(y as int, m as int, d as int), r matches Some(t) ==> t.ymd() == (y as int, m as int, d as int) { unimplemented!() }
#[verifier::external_body] pub fn date_from_timestamp_opt(n: i64, ns: u32) -> (r: Option<VpDateTime>) requires ns == 0 ensures year4(n as int) ==> r is Some, r matches Some(t) ==> t.civil() == civil(n as int) && civil_ok(t.civil()) && secs_of(t.civil()) == n && (0 <= t.civil().y <= 9999 <==> year4(n as int)) && i32::MIN <= t.civil().y <= i32::MAX { unimplemented!() }
pub axiom fn ax_civil(n: int) requires year4(n) ensures civil_ok(civil(n)), secs_of(civil(n)) == n, 0 <= civil(n).y <= 9999;
impl VpDateTime {
    pub uninterp spec fn civil(&self) -> Civil;
    #[verifier::external_body] pub fn timestamp(&self) -> (r: i64) ensures civil_ok(self.civil()) && 0 <= self.civil().y <= 9999 ==> r == secs_of(self.civil()) { unimplemented!() }
    #[verifier::external_body] pub fn year(&self) -> (r: i32) ensures i32::MIN <= self.civil().y <= i32::MAX ==> r == self.civil().y { unimplemented!() }
    #[verifier::external_body] pub fn month(&self) -> (r: u32) ensures civil_ok(self.civil()) ==> r == self.civil().mo { unimplemented!() }
    #[verifier::external_body] pub fn day(&self) -> (r: u32) ensures civil_ok(self.civil()) ==> r == self.civil().d { unimplemented!() }
    #[verifier::external_body] pub fn hour(&self) -> (r: u32) ensures civil_ok(self.civil()) ==> r == self.civil().h { unimplemented!() }
    #[verifier::external_body] pub fn minute(&self) -> (r: u32) ensures civil_ok(self.civil()) ==> r == self.civil().mi { unimplemented!() }
    #[verifier::external_body] pub fn second(&self) -> (r: u32) ensures civil_ok(self.civil()) ==> r == self.civil().s { unimplemented!() }
}
