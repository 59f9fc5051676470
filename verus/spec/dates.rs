// times: yyyyMMddHHmmss in UTC
pub open spec fn civil_text(c: Civil) -> Seq<char> { pad4(c.y) + pad2(c.mo) + pad2(c.d) + pad2(c.h) + pad2(c.mi) + pad2(c.s) }
pub open spec fn text_civil(s: Seq<char>) -> Civil { Civil { y: dval(s.subrange(0, 4)), mo: dval(s.subrange(4, 6)), d: dval(s.subrange(6, 8)), h: dval(s.subrange(8, 10)), mi: dval(s.subrange(10, 12)), s: dval(s.subrange(12, 14)) } }
pub open spec fn enc__date_to_timestamp(t: u64) -> Option<J> { if year4(wrap_i64(t as int) as int) { Some(J::Str(civil_text(civil(wrap_i64(t as int) as int)))) } else { None } }
pub open spec fn dec__date_to_timestamp(j: J) -> Option<u64> {
    match jstr(j) { Some(s) => if s.len() == 14 && digits(s) && civil_ok(text_civil(s)) { Some(wrap_u64(secs_of(text_civil(s)))) } else { None }, None => None }
}
pub open spec fn good__date_to_timestamp(t: u64) -> bool { true }
pub proof fn dval2(s: Seq<char>) requires s.len() == 2 ensures dval(s) == (s[0] as int - '0' as int) * 10 + (s[1] as int - '0' as int)
{ reveal_with_fuel(dval, 3); assert(s.drop_last().drop_last() =~= seq![]); }
pub proof fn dval4(s: Seq<char>) requires s.len() == 4 ensures dval(s) == (s[0] as int - '0' as int) * 1000 + (s[1] as int - '0' as int) * 100 + (s[2] as int - '0' as int) * 10 + (s[3] as int - '0' as int)
{ let t = s.drop_last().drop_last(); assert(t[0] == s[0] && t[1] == s[1]); dval2(t); reveal_with_fuel(dval, 3); }
pub proof fn pad2_back(n: int) requires 0 <= n <= 99 ensures digits(pad2(n)), dval(pad2(n)) == n { dval2(pad2(n)); }
pub proof fn split4(n: int) requires 0 <= n <= 9999 ensures n == (n / 1000) * 1000 + (n / 100 % 10) * 100 + (n / 10 % 10) * 10 + n % 10, 0 <= n / 1000 <= 9, 0 <= n / 100 % 10 <= 9, 0 <= n / 10 % 10 <= 9, 0 <= n % 10 <= 9
{
    let (a, b) = (n / 10, n / 100);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 10, 10);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 100, 10);
    assert(a / 10 == b && b / 10 == n / 1000);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, 10);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, 10);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, 10);
}
pub proof fn digit_val(n: int) requires 0 <= n <= 9 ensures digit(n) as int - '0' as int == n, is_digit(digit(n)) {}
pub proof fn pad4_back(n: int) requires 0 <= n <= 9999 ensures digits(pad4(n)), dval(pad4(n)) == n {
    let t = pad4(n);
    split4(n); digit_val(n / 1000); digit_val(n / 100 % 10); digit_val(n / 10 % 10); digit_val(n % 10);
    assert(t.len() == 4 && t[0] == digit(n / 1000) && t[1] == digit(n / 100 % 10) && t[2] == digit(n / 10 % 10) && t[3] == digit(n % 10));
    dval4(t);
}
pub proof fn text_back(c: Civil) requires civil_ok(c), 0 <= c.y <= 9999 ensures civil_text(c).len() == 14, digits(civil_text(c)), text_civil(civil_text(c)) == c
{
    pad4_back(c.y); pad2_back(c.mo); pad2_back(c.d); pad2_back(c.h); pad2_back(c.mi); pad2_back(c.s);
    let t = civil_text(c);
    assert(t.subrange(0, 4) =~= pad4(c.y)); assert(t.subrange(4, 6) =~= pad2(c.mo)); assert(t.subrange(6, 8) =~= pad2(c.d));
    assert(t.subrange(8, 10) =~= pad2(c.h)); assert(t.subrange(10, 12) =~= pad2(c.mi)); assert(t.subrange(12, 14) =~= pad2(c.s));
    assert forall|i: int| 0 <= i < t.len() implies is_digit(#[trigger] t[i]) by {
        if i < 4 { assert(t[i] == pad4(c.y)[i]); } else if i < 6 { assert(t[i] == pad2(c.mo)[i - 4]); } else if i < 8 { assert(t[i] == pad2(c.d)[i - 6]); } else if i < 10 { assert(t[i] == pad2(c.h)[i - 8]); } else if i < 12 { assert(t[i] == pad2(c.mi)[i - 10]); } else { assert(t[i] == pad2(c.s)[i - 12]); }
    }
}
pub proof fn rt__date_to_timestamp(t: u64) requires good__date_to_timestamp(t) ensures enc__date_to_timestamp(t) matches Some(j) ==> dec__date_to_timestamp(j) == Some(t)
{ let n = wrap_i64(t as int) as int; if year4(n) { ax_civil(n); text_back(civil(n)); } }

/// fourteen ASCII digits, seen as bytes
pub proof fn digit_bytes(s: Seq<char>)
    ensures (byte_len(s) == 14 && forall|i: int| 0 <= i < bytes_of(s).len() ==> (#[trigger] bytes_of(s)[i]).dig()) <==> (s.len() == 14 && digits(s)),
        digits(s) ==> ascii(s)
{
    ax_bytes(s); ax_byte_len(s);
    if digits(s) { assert(ascii(s)); assert forall|i: int| 0 <= i < bytes_of(s).len() implies (#[trigger] bytes_of(s)[i]).dig() by { assert(is_digit(s[i])); } }
    if byte_len(s) == 14 && forall|i: int| 0 <= i < bytes_of(s).len() ==> (#[trigger] bytes_of(s)[i]).dig() {
        assert(ascii(s));
        assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by { assert(bytes_of(s)[i].dig()); assert(bytes_of(s)[i] == s[i] as u8); }
    }
}
/// a piece of such a text, as a number
pub proof fn piece(s: Seq<char>, a: int, b: int)
    requires digits(s), 0 <= a < b <= s.len(), b - a == 2 || b - a == 4
    ensures num_of(s.subrange(a, b)) == Some(dval(s.subrange(a, b))), 0 <= dval(s.subrange(a, b)) <= 9999, b - a == 2 ==> dval(s.subrange(a, b)) <= 99
{
    let t = s.subrange(a, b);
    assert forall|i: int| 0 <= i < t.len() implies is_digit(#[trigger] t[i]) by { assert(is_digit(s[a + i])); }
    ax_digits(t);
    assert(is_digit(t[0]) && is_digit(t[1]));
    if b - a == 2 { dval2(t); } else { assert(is_digit(t[2]) && is_digit(t[3])); dval4(t); }
}
