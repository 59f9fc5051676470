pub use crate::color::Color;
/// the text a JSON value is, if it is one
pub open spec fn jstr(j: J) -> Option<Seq<char>> { match j { J::Str(s) => Some(s), J::Name(n) => Some(name_text(n)), _ => None } }
// numbers written as text
pub open spec fn enc__string_to_u16(n: u16) -> Option<J> { Some(J::Str(dec(n as int))) }
pub open spec fn dec__string_to_u16(j: J) -> Option<u16> { match jstr(j) { Some(s) => u16::of_text(s), None => None } }
pub open spec fn good__string_to_u16(n: u16) -> bool { true }
pub proof fn rt__string_to_u16(n: u16) requires good__string_to_u16(n) ensures enc__string_to_u16(n) matches Some(j) ==> dec__string_to_u16(j) == Some(n) { broadcast use vp_num; }
// flags written as 1 or 0
pub open spec fn enc__bool_to_one_zero(b: bool) -> Option<J> { Some(J::Int(if b { 1 } else { 0 })) }
pub open spec fn dec__bool_to_one_zero(j: J) -> Option<bool> { match j { J::Int(n) => if 0 <= n <= 255 { Some(n != 0) } else { None }, _ => None } }
pub open spec fn good__bool_to_one_zero(b: bool) -> bool { true }
pub proof fn rt__bool_to_one_zero(b: bool) requires good__bool_to_one_zero(b) ensures enc__bool_to_one_zero(b) matches Some(j) ==> dec__bool_to_one_zero(j) == Some(b) {}
// flags written as text
pub open spec fn enc__bool_to_str(b: bool) -> Option<J> { Some(J::Str(if b { "true"@ } else { "false"@ })) }
pub open spec fn dec__bool_to_str(j: J) -> Option<bool> { match jstr(j) { Some(s) => if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None }, None => None } }
pub open spec fn good__bool_to_str(b: bool) -> bool { true }
pub proof fn rt__bool_to_str(b: bool) requires good__bool_to_str(b) ensures enc__bool_to_str(b) matches Some(j) ==> dec__bool_to_str(j) == Some(b) { reveal_strlit("true"); reveal_strlit("false"); assert("true"@.len() != "false"@.len()); }
// colours: the number that 0xAARRGGBB is as a signed 32-bit number
pub open spec fn color_of(n: int) -> Color { Color { value: wrap_u32(clamp32(wrap_i64(n) as int) as int) } }
pub open spec fn enc__Color(c: Color) -> Option<J> { Some(J::Int(wrap_i32(c.value as int) as int)) }
pub open spec fn dec__Color(j: J) -> Option<Color> { match j { J::Int(n) => if i64::MIN <= n <= u64::MAX { Some(color_of(n)) } else { None }, J::Flt(f) => Some(Color { value: wrap_u32(f_i32(flt64(f)) as int) }), _ => None } }
pub open spec fn good__Color(c: Color) -> bool { true }
pub proof fn rt__Color(c: Color) requires good__Color(c) ensures enc__Color(c) matches Some(j) ==> dec__Color(j) == Some(c) {}
