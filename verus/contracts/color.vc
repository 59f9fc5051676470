@fn color::Color::from_rgb
    ensures r == argb(255, $1, $2, $3),
@hint start
    assert(0xFFu32 << 24 | ($1 as u32) << 16 | ($2 as u32) << 8 | ($3 as u32) << 0 == argb_bits(255u32, $1 as u32, $2 as u32, $3 as u32)) by (bit_vector);
@fn color::Color::from_argb
    ensures r == argb($1, $2, $3, $4),
@hint start
    assert(($1 as u32) << 24 | ($2 as u32) << 16 | ($3 as u32) << 8 | ($4 as u32) << 0 == argb_bits($1 as u32, $2 as u32, $3 as u32, $4 as u32)) by (bit_vector);
@fn color::Color::alpha
    ensures r == chan(*self, 24),
@hint start
    proof { bits_all(self.value); }
@fn color::Color::red
    ensures r == chan(*self, 16),
@hint start
    proof { bits_all(self.value); }
@fn color::Color::green
    ensures r == chan(*self, 8),
@hint start
    proof { bits_all(self.value); }
@fn color::Color::blue
    ensures r == chan(*self, 0),
@hint start
    proof { bits_all(self.value); }
@fn color::Color::rgb
    ensures r == (chan(*self, 16), chan(*self, 8), chan(*self, 0)),
@fn color::Color::from
    ensures r.value == $1,
@hint start
    assert(forall|v: u32| v & 0xffffffff == v) by (bit_vector);
@fn color::Color::parse_hex
@into crate::color::Color
    ensures
        $1@.len() == 8 && all_hex($1@) ==> r is Ok && r->Ok_0.value == hexval($1@),
        $1@.len() == 6 && all_hex($1@) ==> r is Ok && r->Ok_0.value == hexval("ff"@ + $1@),
@hint start
    proof { hex_ascii($1@); broadcast use ax_byte_len; }
@fn color::Color::default
    ensures r == argb(255, 0, 0, 0),
@fn color::Color::fmt
    ensures r@ == seq!['0', 'x'] + hex8(self.value),
@fn color::Color::fmt@Debug
    ensures r@ == seq!['0', 'x'] + hex8(self.value),
@fn api::block::BlockCategory::into
    ensures r == cat_color(self),
@fn api::block::BlockCategory::try_from
    ensures
        r matches Ok(c) ==> (chan(cat_color(c), 16), chan(cat_color(c), 8), chan(cat_color(c), 0)) == (chan($1, 16), chan($1, 8), chan($1, 0)),
        r is Err ==> forall|c: BlockCategory| (chan(#[trigger] cat_color(c), 16), chan(cat_color(c), 8), chan(cat_color(c), 0)) != (chan($1, 16), chan($1, 8), chan($1, 0)),
@hint start
    proof { cat_channels(); }
