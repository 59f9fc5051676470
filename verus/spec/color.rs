use crate::color::Color;
use crate::api::block::BlockCategory;
pub open spec fn argb_bits(a: u32, r: u32, g: u32, b: u32) -> u32 { (a << 24) | (r << 16) | (g << 8) | b }
pub open spec fn argb(a: u8, r: u8, g: u8, b: u8) -> Color { Color { value: argb_bits(a as u32, r as u32, g as u32, b as u32) } }
/// the channel that starts at bit k
pub open spec fn chan(c: Color, k: u32) -> u8 { ((c.value >> k) & 0xff) as u8 }
pub proof fn bits_all(v: u32)
    ensures
        ((v >> 24) & 0b111111111) as u8 == ((v >> 24) & 0xff) as u8, ((v >> 16) & 0b111111111) as u8 == ((v >> 16) & 0xff) as u8,
        ((v >> 8) & 0b111111111) as u8 == ((v >> 8) & 0xff) as u8, ((v >> 0) & 0b111111111) as u8 == ((v >> 0) & 0xff) as u8,
{
    assert(((v >> 24) & 0b111111111) as u8 == ((v >> 24) & 0xff) as u8) by (bit_vector);
    assert(((v >> 16) & 0b111111111) as u8 == ((v >> 16) & 0xff) as u8) by (bit_vector);
    assert(((v >> 8) & 0b111111111) as u8 == ((v >> 8) & 0xff) as u8) by (bit_vector);
    assert(((v >> 0) & 0b111111111) as u8 == ((v >> 0) & 0xff) as u8) by (bit_vector);
}
pub proof fn channels(a: u8, r: u8, g: u8, b: u8)
    ensures chan(argb(a, r, g, b), 24) == a, chan(argb(a, r, g, b), 16) == r, chan(argb(a, r, g, b), 8) == g, chan(argb(a, r, g, b), 0) == b,
{
    assert((((((a as u32) << 24) | ((r as u32) << 16) | ((g as u32) << 8) | (b as u32)) >> 24) & 0xff) as u8 == a) by (bit_vector);
    assert((((((a as u32) << 24) | ((r as u32) << 16) | ((g as u32) << 8) | (b as u32)) >> 16) & 0xff) as u8 == r) by (bit_vector);
    assert((((((a as u32) << 24) | ((r as u32) << 16) | ((g as u32) << 8) | (b as u32)) >> 8) & 0xff) as u8 == g) by (bit_vector);
    assert((((((a as u32) << 24) | ((r as u32) << 16) | ((g as u32) << 8) | (b as u32)) >> 0) & 0xff) as u8 == b) by (bit_vector);
}
/// Sketchware's colour of each block category
pub open spec fn cat_color(c: BlockCategory) -> Color {
    match c {
        BlockCategory::Variable => argb(255, 0xee, 0x7d, 0x16), BlockCategory::List => argb(255, 0xcc, 0x5b, 0x22),
        BlockCategory::Control => argb(255, 0xe1, 0xa9, 0x2a), BlockCategory::Operator => argb(255, 0x5c, 0xb7, 0x22),
        BlockCategory::Math => argb(255, 0x23, 0xb9, 0xa9), BlockCategory::File => argb(255, 0xa1, 0x88, 0x7f),
        BlockCategory::ViewFunc => argb(255, 0x4a, 0x6c, 0xd4), BlockCategory::ComponentFunc => argb(255, 0xfc, 0xa5, 0xe2),
        BlockCategory::MoreBlock => argb(255, 0x8a, 0x55, 0xd7),
    }
}
pub proof fn cat_channels()
    ensures
        forall|c: BlockCategory| #![trigger cat_color(c)] (chan(cat_color(c), 16), chan(cat_color(c), 8), chan(cat_color(c), 0)) == (match c {
            BlockCategory::Variable => (0xeeu8, 0x7du8, 0x16u8), BlockCategory::List => (0xccu8, 0x5bu8, 0x22u8), BlockCategory::Control => (0xe1u8, 0xa9u8, 0x2au8),
            BlockCategory::Operator => (0x5cu8, 0xb7u8, 0x22u8), BlockCategory::Math => (0x23u8, 0xb9u8, 0xa9u8), BlockCategory::File => (0xa1u8, 0x88u8, 0x7fu8),
            BlockCategory::ViewFunc => (0x4au8, 0x6cu8, 0xd4u8), BlockCategory::ComponentFunc => (0xfcu8, 0xa5u8, 0xe2u8), BlockCategory::MoreBlock => (0x8au8, 0x55u8, 0xd7u8) }),
{
    channels(255, 0xee, 0x7d, 0x16); channels(255, 0xcc, 0x5b, 0x22); channels(255, 0xe1, 0xa9, 0x2a); channels(255, 0x5c, 0xb7, 0x22); channels(255, 0x23, 0xb9, 0xa9);
    channels(255, 0xa1, 0x88, 0x7f); channels(255, 0x4a, 0x6c, 0xd4); channels(255, 0xfc, 0xa5, 0xe2); channels(255, 0x8a, 0x55, 0xd7);
}
pub proof fn hex_ascii(s: Seq<char>) ensures all_hex(s) ==> ascii(s)
{ if all_hex(s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] <= '\u{7f}' by { assert(hexdig(s[i]) is Some); } } }
pub open spec fn two(a: char, b: char) -> int { hexdig(a)->0 * 16 + hexdig(b)->0 }
pub proof fn hex_channels(s: Seq<char>, v: u32)
    requires s.len() == 8, all_hex(s), v == hexval(s)
    ensures chan(Color { value: v }, 24) == two(s[0], s[1]), chan(Color { value: v }, 16) == two(s[2], s[3]), chan(Color { value: v }, 8) == two(s[4], s[5]), chan(Color { value: v }, 0) == two(s[6], s[7]),
{
    reveal_with_fuel(hexval, 9);
    assert(forall|i: int| 0 <= i < 8 ==> hexdig(#[trigger] s[i]) is Some);
    let (a, b, c, d) = (two(s[0], s[1]), two(s[2], s[3]), two(s[4], s[5]), two(s[6], s[7]));
    assert(0 <= a < 256 && 0 <= b < 256 && 0 <= c < 256 && 0 <= d < 256);
    assert(v == a * 0x1000000 + b * 0x10000 + c * 0x100 + d);
    let (a, b, c, d) = (a as u32, b as u32, c as u32, d as u32);
    assert(v == add(add(add(mul(a, 0x1000000), mul(b, 0x10000)), mul(c, 0x100)), d));
    assert(((v >> 24) & 0xff) as u8 == a && ((v >> 16) & 0xff) as u8 == b && ((v >> 8) & 0xff) as u8 == c && ((v >> 0) & 0xff) as u8 == d) by (bit_vector)
        requires v == add(add(add(mul(a, 0x1000000), mul(b, 0x10000)), mul(c, 0x100)), d), a < 256, b < 256, c < 256, d < 256;
}
