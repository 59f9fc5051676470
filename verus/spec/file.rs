pub use crate::parser::file::ActivityOptions;
// the four switches of a screen are bits of one number
pub open spec fn bits_of(n: u8) -> ActivityOptions { ActivityOptions { toolbar_enabled: n & 1 == 1, fullscreen_enabled: n & 2 == 2, drawer_enabled: n & 4 == 4, fab_enabled: n & 8 == 8 } }
pub open spec fn bits_num(o: ActivityOptions) -> u8 { ((if o.toolbar_enabled { 1int } else { 0 }) + (if o.fullscreen_enabled { 2int } else { 0 }) + (if o.drawer_enabled { 4int } else { 0 }) + (if o.fab_enabled { 8int } else { 0 })) as u8 }
pub proof fn bits_back(o: ActivityOptions) ensures bits_of(bits_num(o)) == o
{
    let n = bits_num(o);
    assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0 && 1u8 & 1 == 1 && 1u8 & 2 == 0 && 1u8 & 4 == 0 && 1u8 & 8 == 0 && 2u8 & 1 == 0 && 2u8 & 2 == 2 && 2u8 & 4 == 0 && 2u8 & 8 == 0 && 3u8 & 1 == 1 && 3u8 & 2 == 2 && 3u8 & 4 == 0 && 3u8 & 8 == 0) by (bit_vector);
    assert(4u8 & 1 == 0 && 4u8 & 2 == 0 && 4u8 & 4 == 4 && 4u8 & 8 == 0 && 5u8 & 1 == 1 && 5u8 & 2 == 0 && 5u8 & 4 == 4 && 5u8 & 8 == 0 && 6u8 & 1 == 0 && 6u8 & 2 == 2 && 6u8 & 4 == 4 && 6u8 & 8 == 0 && 7u8 & 1 == 1 && 7u8 & 2 == 2 && 7u8 & 4 == 4 && 7u8 & 8 == 0) by (bit_vector);
    assert(8u8 & 1 == 0 && 8u8 & 2 == 0 && 8u8 & 4 == 0 && 8u8 & 8 == 8 && 9u8 & 1 == 1 && 9u8 & 2 == 0 && 9u8 & 4 == 0 && 9u8 & 8 == 8 && 10u8 & 1 == 0 && 10u8 & 2 == 2 && 10u8 & 4 == 0 && 10u8 & 8 == 8 && 11u8 & 1 == 1 && 11u8 & 2 == 2 && 11u8 & 4 == 0 && 11u8 & 8 == 8) by (bit_vector);
    assert(12u8 & 1 == 0 && 12u8 & 2 == 0 && 12u8 & 4 == 4 && 12u8 & 8 == 8 && 13u8 & 1 == 1 && 13u8 & 2 == 0 && 13u8 & 4 == 4 && 13u8 & 8 == 8 && 14u8 & 1 == 0 && 14u8 & 2 == 2 && 14u8 & 4 == 4 && 14u8 & 8 == 8 && 15u8 & 1 == 1 && 15u8 & 2 == 2 && 15u8 & 4 == 4 && 15u8 & 8 == 8) by (bit_vector);
}
pub open spec fn enc__activity_options_parser(o: ActivityOptions) -> Option<J> { Some(J::Int(bits_num(o) as int)) }
pub open spec fn dec__activity_options_parser(j: J) -> Option<ActivityOptions> { match j { J::Int(n) => if 0 <= n <= 255 { Some(bits_of(n as u8)) } else { None }, _ => None } }
pub open spec fn good__activity_options_parser(o: ActivityOptions) -> bool { true }
pub proof fn rt__activity_options_parser(o: ActivityOptions) requires good__activity_options_parser(o) ensures enc__activity_options_parser(o) matches Some(j) ==> dec__activity_options_parser(j) == Some(o) { bits_back(o); }
