@fn parser::file::ActivityOptions::from_num
    ensures r == bits_of($1),
@fn parser::file::ActivityOptions::as_num
    ensures r == bits_num(*self),
@hint start
    proof {
        assert(0u8 | 1 == 1 && 2u8 | 1 == 3 && 4u8 | 1 == 5 && 6u8 | 1 == 7 && 8u8 | 1 == 9 && 10u8 | 1 == 11 && 12u8 | 1 == 13 && 14u8 | 1 == 15) by (bit_vector);
        assert(0u8 | 2 == 2 && 1u8 | 2 == 3 && 4u8 | 2 == 6 && 5u8 | 2 == 7 && 8u8 | 2 == 10 && 9u8 | 2 == 11 && 12u8 | 2 == 14 && 13u8 | 2 == 15) by (bit_vector);
        assert(0u8 | 4 == 4 && 1u8 | 4 == 5 && 2u8 | 4 == 6 && 3u8 | 4 == 7 && 8u8 | 4 == 12 && 9u8 | 4 == 13 && 10u8 | 4 == 14 && 11u8 | 4 == 15) by (bit_vector);
        assert(0u8 | 8 == 8 && 1u8 | 8 == 9 && 2u8 | 8 == 10 && 3u8 | 8 == 11 && 4u8 | 8 == 12 && 5u8 | 8 == 13 && 6u8 | 8 == 14 && 7u8 | 8 == 15) by (bit_vector);
    }
@fn parser::file::activity_options_parser::serialize
    ensures r is Ok, enc__activity_options_parser(*$1) == Some(r->Ok_0.j),
@fn parser::file::activity_options_parser::deserialize
    ensures r is Ok <==> dec__activity_options_parser($1.j) is Some, r matches Ok(x) ==> dec__activity_options_parser($1.j) == Some(x),
@fn parser::file::FileItem::parse
    ensures r is Ok <==> jread::<FileItem>($1@) is Some, r matches Ok(x) ==> jread::<FileItem>($1@) == Some(x),
@fn parser::file::FileItem::reconstruct
    ensures r is Ok, r->Ok_0@ == item_text(*self),
@hint start
    proof { file_item_text(*self); }
@fn parser::file::File::parse
    ensures r is Ok <==> file_read($1@) is Some, r matches Ok(x) ==> file_read($1@) == Some(x),
@loops 1
@loop 0
    invariant file_run(texts(iterator.rem()), cur_section, result) == file_read($1@), line_count + iterator.rem().len() <= u32::MAX
    ensures file_read($1@) == Some(result)
    decreases iterator.rem().len()
@hint start
    proof { assert("\n"@ =~= nl()); }
@hint loop 0 start
    let ghost before = texts(iterator.rem()); let ghost r0 = result;
    proof { if iterator.rem().len() > 0 { assert(texts(iterator.rem().skip(1)) =~= before.skip(1)); } }
@hint loop 0 end
    proof { assert forall|x: FileItem| r0.activities@.push(x) == r0.activities@ + seq![x] && r0.custom_views@.push(x) == r0.custom_views@ + seq![x] by { assert(r0.activities@.push(x) =~= r0.activities@ + seq![x]); assert(r0.custom_views@.push(x) =~= r0.custom_views@ + seq![x]); } }
@fn parser::file::File::reconstruct
    ensures r is Ok <==> file_text(*self) is Some, r matches Ok(x) ==> file_text(*self) == Some(x@),
@loop 0
    invariant vp_all0 == refs(self.activities@), acc@ == prelines(item_texts(self.activities@.take(vp_n0)))
@hint loop 0 start
    let ghost before = acc@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { file_item_text(self.activities@[n0]); items_step(self.activities@, n0); assert(acc@ =~= before + nl() + item_text(self.activities@[n0])); }
@hint after 0
    proof { assert(self.activities@.take(self.activities@.len() as int) =~= self.activities@); }
@loop 1
    invariant vp_all1 == refs(self.custom_views@), acc@ == prelines(item_texts(self.custom_views@.take(vp_n1)))
@hint loop 1 start
    let ghost before = acc@; let ghost n0 = vp_n1 - 1;
@hint loop 1 end
    proof { file_item_text(self.custom_views@[n0]); items_step(self.custom_views@, n0); assert(acc@ =~= before + nl() + item_text(self.custom_views@[n0])); }
@hint after 1
    proof { assert(self.custom_views@.take(self.custom_views@.len() as int) =~= self.custom_views@); }
