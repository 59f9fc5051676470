pub use crate::parser::library::{Library as PLibrary, LibraryItem};
pub struct LibAcc { pub f: Option<LibraryItem>, pub c: Option<LibraryItem>, pub a: Option<LibraryItem>, pub g: Option<LibraryItem> }
pub open spec fn lib_header(l: Seq<char>) -> int { if l == "@firebaseDB"@ { 1 } else if l == "@compat"@ { 2 } else if l == "@admob"@ { 3 } else if l == "@googleMap"@ { 4 } else { 0 } }
pub open spec fn lib_set(s: LibAcc, k: int, x: LibraryItem) -> LibAcc { if k == 1 { LibAcc { f: Some(x), ..s } } else if k == 2 { LibAcc { c: Some(x), ..s } } else if k == 3 { LibAcc { a: Some(x), ..s } } else { LibAcc { g: Some(x), ..s } } }
/// every header is followed by the line of its item; other lines are passed over
pub open spec fn lib_run(ls: Seq<Seq<char>>, s: LibAcc) -> Option<PLibrary> decreases ls.len() {
    if ls.len() == 0 {
        match (s.f, s.c, s.a, s.g) { (Some(f), Some(c), Some(a), Some(g)) => Some(PLibrary { firebase_db: f, compat: c, admob: a, google_map: g }), _ => None }
    } else {
        let k = lib_header(ls[0]);
        if k == 0 { lib_run(ls.skip(1), s) } else if ls.len() == 1 { None } else { match jread::<LibraryItem>(ls[1]) { Some(x) => lib_run(ls.skip(2), lib_set(s, k, x)), None => None } }
    }
}
pub open spec fn lib_empty() -> LibAcc { LibAcc { f: None, c: None, a: None, g: None } }
pub open spec fn library_read(s: Seq<char>) -> Option<PLibrary> { lib_run(lines(s), lib_empty()) }
pub open spec fn library_text(l: PLibrary) -> Option<Seq<char>> {
    Some("@firebaseDB\n"@ + item_text(l.firebase_db) + "\n@compat\n"@ + item_text(l.compat) + "\n@admob\n"@ + item_text(l.admob) + "\n@googleMap\n"@ + item_text(l.google_map))
}
pub proof fn lib_item_text(x: LibraryItem) ensures is_obj(x), x.enc() is Some, solid(item_text(x)), oneline(item_text(x)), jread::<LibraryItem>(item_text(x)) == Some(x)
{ x.rt(); obj_text(x); }
/// C06: what is written reads back as the same four libraries
pub proof fn c06_back(l: PLibrary) ensures library_text(l) is Some, library_read(library_text(l)->0) == Some(l)
{
    reveal_strlit("@firebaseDB"); reveal_strlit("@compat"); reveal_strlit("@admob"); reveal_strlit("@googleMap");
    reveal_strlit("@firebaseDB\n"); reveal_strlit("\n@compat\n"); reveal_strlit("\n@admob\n"); reveal_strlit("\n@googleMap\n");
    let (f, c, a, g) = (item_text(l.firebase_db), item_text(l.compat), item_text(l.admob), item_text(l.google_map));
    lib_item_text(l.firebase_db); lib_item_text(l.compat); lib_item_text(l.admob); lib_item_text(l.google_map);
    let (hf, hc, ha, hg) = ("@firebaseDB"@, "@compat"@, "@admob"@, "@googleMap"@);
    assert(oneline(hf) && oneline(hc) && oneline(ha) && oneline(hg));
    assert(hf[1] == 'f' && hc[1] == 'c' && ha[1] == 'a' && hg[1] == 'g');
    assert("@firebaseDB\n"@ =~= hf + nl()); assert("\n@compat\n"@ =~= nl() + hc + nl()); assert("\n@admob\n"@ =~= nl() + ha + nl()); assert("\n@googleMap\n"@ =~= nl() + hg + nl());
    let t4 = hg + nl() + g;
    let t3 = ha + nl() + (a + nl() + t4);
    let t2 = hc + nl() + (c + nl() + t3);
    let t1 = hf + nl() + (f + nl() + t2);
    assert(library_text(l)->0 =~= t1);
    lines_one(g); lines_cons(hg, g);
    lines_cons(a, t4); lines_cons(ha, a + nl() + t4);
    lines_cons(c, t3); lines_cons(hc, c + nl() + t3);
    lines_cons(f, t2); lines_cons(hf, f + nl() + t2);
    assert(lines(t4) =~= seq![hg, g]);
    assert(lines(t3) =~= seq![ha, a] + lines(t4));
    assert(lines(t2) =~= seq![hc, c] + lines(t3));
    assert(lines(t1) =~= seq![hf, f] + lines(t2));
    assert(lines(t1).skip(2) =~= lines(t2)); assert(lines(t2).skip(2) =~= lines(t3)); assert(lines(t3).skip(2) =~= lines(t4)); assert(lines(t4).skip(2) =~= seq![]);
    let s0 = lib_empty();
    let s1 = lib_set(s0, 1, l.firebase_db); let s2 = lib_set(s1, 2, l.compat); let s3 = lib_set(s2, 3, l.admob); let s4 = lib_set(s3, 4, l.google_map);
    assert(lib_run(lines(t4).skip(2), s4) == Some(l));
    assert(lib_run(lines(t4), s3) == Some(l));
    assert(lib_run(lines(t3), s2) == Some(l));
    assert(lib_run(lines(t2), s1) == Some(l));
}
