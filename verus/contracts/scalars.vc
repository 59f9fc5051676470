@fn parser::serde_util::string_to_u16::serialize
    ensures r is Ok, enc__string_to_u16(*$1) == Some(r->Ok_0.j),
@fn parser::serde_util::string_to_u16::deserialize
    ensures r is Ok <==> dec__string_to_u16($1.j) is Some, r matches Ok(x) ==> dec__string_to_u16($1.j) == Some(x),
@fn parser::serde_util::bool_to_one_zero::serialize
    ensures r is Ok, enc__bool_to_one_zero(*$1) == Some(r->Ok_0.j),
@fn parser::serde_util::bool_to_one_zero::deserialize
    ensures r is Ok <==> dec__bool_to_one_zero($1.j) is Some, r matches Ok(x) ==> dec__bool_to_one_zero($1.j) == Some(x),
@fn parser::serde_util::bool_to_str::serialize
    ensures r is Ok, enc__bool_to_str(*$1) == Some(r->Ok_0.j),
@fn parser::serde_util::bool_to_str::deserialize
    ensures r is Ok <==> dec__bool_to_str($1.j) is Some, r matches Ok(x) ==> dec__bool_to_str($1.j) == Some(x),
@fn color::Color::serialize
    ensures r is Ok, enc__Color(*self) == Some(r->Ok_0.j),
@fn color::ColorDeserializer::visit_i64
    ensures r is Ok, r->Ok_0 == color_of($1 as int),
@hint start
    proof { broadcast use ax_f64; }
@fn color::ColorDeserializer::visit_u64
    ensures r is Ok, r->Ok_0 == color_of($1 as int),
@fn color::ColorDeserializer::visit_f64
    ensures r is Ok, r->Ok_0 == (Color { value: wrap_u32(f_i32($1) as int) }),
@fn color::Color::deserialize
    ensures r is Ok <==> dec__Color($1.j) is Some, r matches Ok(x) ==> dec__Color($1.j) == Some(x),
@fn parser::view::models::layout::Size::serialize
    ensures r is Ok, enc__Size(*self) == Some(r->Ok_0.j),
@fn parser::view::models::layout::Size::deserialize
    ensures r is Ok <==> dec__Size($1.j) is Some, r matches Ok(x) ==> dec__Size($1.j) == Some(x),
@fn parser::serde_util::date_to_timestamp::serialize
    ensures r is Ok <==> enc__date_to_timestamp(*$1) is Some, r matches Ok(x) ==> enc__date_to_timestamp(*$1) == Some(x.j),
@hint start
    proof { let n = wrap_i64(*$1 as int) as int; if year4(n) { ax_civil(n); } }
@hint end
    proof { let n = wrap_i64(*$1 as int) as int; if vp_end is Ok { assert(vp_end->Ok_0.j->Str_0 =~= civil_text(civil(n))); } }
@fn parser::serde_util::date_to_timestamp::deserialize
    ensures r is Ok <==> dec__date_to_timestamp($1.j) is Some, r matches Ok(x) ==> dec__date_to_timestamp($1.j) == Some(x),
@loop 0
    invariant_except_break vp_out0
    ensures vp_out0 <==> forall|i: int| 0 <= i < vp_all0.len() ==> (#[trigger] vp_all0[i]).dig()
    invariant forall|i: int| 0 <= i < (if vp_out0 { vp_n0 } else { vp_n0 - 1 }) ==> (#[trigger] vp_all0[i]).dig()
@hint start
    proof { if jstr($1.j) is Some { digit_bytes(jstr($1.j)->0); } }
@hint after 0
    proof {
        if digits(v@) && v@.len() == 14 {
            let s = v@;
            assert(forall|k: int| 0 <= k <= 14 ==> ascii(#[trigger] s.take(k)));
            piece(s, 0, 4); piece(s, 4, 6); piece(s, 6, 8); piece(s, 8, 10); piece(s, 10, 12); piece(s, 12, 14);
        }
    }
