@fn parser::library::LibraryItem::parse
    ensures r is Ok <==> jread::<LibraryItem>($1@) is Some, r matches Ok(x) ==> jread::<LibraryItem>($1@) == Some(x),
@fn parser::library::LibraryItem::reconstruct
    ensures r is Ok, r->Ok_0@ == item_text(*self),
@hint start
    proof { lib_item_text(*self); }
@fn parser::library::Library::parse
    ensures r is Ok <==> library_read($1@) is Some, r matches Ok(x) ==> library_read($1@) == Some(x),
@loops 1
@loop 0
    invariant lib_run(texts(newline_iter.rem()), LibAcc { f: firebase_db, c: compat, a: admob, g: google_map }) == library_read($1@), line_count + newline_iter.rem().len() <= u32::MAX
    ensures newline_iter.rem().len() == 0
    decreases newline_iter.rem().len()
@hint start
    proof { assert("\n"@ =~= nl()); }
@hint loop 0 start
    let ghost before = texts(newline_iter.rem());
    proof { if newline_iter.rem().len() > 0 { assert(texts(newline_iter.rem().skip(1)) =~= before.skip(1)); if newline_iter.rem().len() > 1 { assert(texts(newline_iter.rem().skip(1).skip(1)) =~= before.skip(2)); assert(newline_iter.rem().skip(1)[0] == newline_iter.rem()[1]); } } }
@hint loop 0 end
    proof {
        let k = lib_header(before[0]);
        assert(k != 0 ==> texts(newline_iter.rem()) =~= before.skip(2)); assert(k == 0 ==> texts(newline_iter.rem()) =~= before.skip(1));
    }
@fn parser::library::Library::reconstruct
    ensures r is Ok <==> library_text(*self) is Some, r matches Ok(x) ==> library_text(*self) == Some(x@),
@hint start
    proof { lib_item_text(self.firebase_db); lib_item_text(self.compat); lib_item_text(self.admob); lib_item_text(self.google_map); }
