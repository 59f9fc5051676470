@fn util::CountingIterator::new
    ensures r.iter == $1, r.count == 0,
@fn util::CountingIterator::get_count
    ensures r == self.count,
@fn util::CountingIterator::next
@iter_impl type Item = I::Item; open spec fn rem(&self) -> Seq<I::Item> { self.iter.rem() } open spec fn steps(&self) -> nat { if self.count as nat > self.iter.steps() { self.count as nat } else { self.iter.steps() } }
@fn parser::view::View::parse
    ensures r is Ok <==> view_read($1@) is Some, r matches Ok(x) ==> view_read($1@) == Some(x),
@loop 0
    invariant cur == texts(lines.rem()), view_run(texts(lines.rem()), layouts@, fabs@) == view_run(all0, Seq::empty(), Seq::empty()), lines.steps() + lines.rem().len() <= u32::MAX - 4 + (if lines.rem().len() == 0 { 1int } else { 0 })
    ensures view_run(all0, Seq::empty(), Seq::empty()) == Some((layouts@, fabs@))
    decreases lines.rem().len()
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); assert("@"@ =~= at_sign()); assert("."@ =~= dot()); assert("xml"@ =~= xml()); assert("xml_fab"@ =~= xml_fab()); oneline_kinds(); }
    let ghost all0 = split($1@, nl());
    let ghost mut cur = split($1@, nl());
@hint loop 0 start
    let ghost before = cur; let ghost la = layouts@; let ghost fa = fabs@;
    proof { assert(cur[0] == line@); assert(cur.skip(1) =~= texts(lines.rem())); cur = texts(lines.rem()); }
    let ghost after_head = cur;
@hint loop 0 end
    proof {
        let l = line@.skip(1);
        let i = find(l, dot())->0;
        let name = string_of(l.take(i));
        assert(l == before[0].skip(1));
        assert(screen_name@ == l.take(i)); assert(container_type@ == l.skip(i + 1));
        if container_type@ == xml() {
            let q = layout_run(after_head, Seq::empty())->0;
            layout_run_len(after_head, Seq::empty());
            assert(texts(lines.rem()) == q.1);
            assert(layouts@ == lhm_put(la, name, PLayout(vec_of(q.0))));
            assert(fabs@ == fa);
            assert(view_run(before, la, fa) == view_run(q.1, layouts@, fabs@));
        } else if container_type@ == xml_fab() {
            assert(after_head.skip(1) =~= texts(lines.rem()));
            assert(fabs@ == lhm_put(fa, name, jread::<AndroidView>(after_head[0])->0));
            assert(view_run(before, la, fa) == view_run(texts(lines.rem()), layouts@, fabs@));
        } else {
            assert(view_run(before, la, fa) == view_run(after_head, layouts@, fabs@));
        }
        cur = texts(lines.rem());
    }
@fn parser::view::View::reconstruct
    ensures r is Ok <==> view_text(*self) is Some, r matches Ok(x) ==> view_text(*self) == Some(x@),
@loop 0
    invariant vp_all0 == Seq::new(self.layouts@.len(), |i: int| (&self.layouts@[i].0, &self.layouts@[i].1)), result@ == lay_texts(self.layouts@.take(vp_n0))
@hint start
    proof { assert("@"@ =~= at_sign()); assert(".xml\n"@ =~= dot() + xml() + nl()); assert(".xml_fab\n"@ =~= dot() + xml_fab() + nl()); assert("\n\n"@ =~= nl() + nl()); }
    let ghost mut part = Seq::<char>::empty();
@hint loop 0 start
    let ghost before = result@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { assert(self.layouts@.take(n0 + 1).drop_last() =~= self.layouts@.take(n0)); assert(result@ =~= before + lay_text(self.layouts@[n0])); }
@hint after 0
    proof { part = result@; assert(self.layouts@.take(self.layouts@.len() as int) =~= self.layouts@); }
@loop 1
    invariant vp_all1 == Seq::new(self.fabs@.len(), |i: int| (&self.fabs@[i].0, &self.fabs@[i].1)), result@ == part + fab_texts(self.fabs@.take(vp_n1))
@hint loop 1 start
    let ghost before = result@; let ghost n0 = vp_n1 - 1;
@hint loop 1 end
    proof { assert(self.fabs@.take(n0 + 1).drop_last() =~= self.fabs@.take(n0)); assert(result@ =~= before + fab_text(self.fabs@[n0])); assert(result@ =~= part + fab_texts(self.fabs@.take(n0 + 1))); }
@hint after 1
    proof { assert(self.fabs@.take(self.fabs@.len() as int) =~= self.fabs@); }
@fn parser::view::Layout::parse
    ensures r is Ok <==> layout_read($1@) is Some, r matches Ok(x) ==> layout_read($1@) == Some(x),
@hint start
    proof { assert("\n"@ =~= nl()); }
@fn parser::view::Layout::parse_iter
    requires old($1).steps() + old($1).rem().len() < u32::MAX
    ensures
        r is Ok <==> layout_run(texts(old($1).rem()), Seq::empty()) is Some,
        r matches Ok(x) ==> layout_run(texts(old($1).rem()), Seq::empty()) == Some((x.0@, texts(final($1).rem()))),
        final($1).steps() + final($1).rem().len() <= old($1).steps() + old($1).rem().len() + (if final($1).rem().len() == 0 { 1int } else { 0 }),
        final($1).rem().len() <= old($1).rem().len(),
@loop 0
    invariant layout_run(texts($1.rem()), result@) == layout_run(texts(vp_all0), Seq::empty()), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len(), vp_i0 <= vp_n0, vp_all0.len() < u32::MAX, vp_all0 == old($1).rem()
    ensures layout_run(texts(vp_all0), Seq::empty()) == Some((result@, texts($1.rem()))), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len() + (if $1.rem().len() == 0 { 1int } else { 0 })
@hint loop 0 start
    proof { assert(texts(vp_all0.skip(vp_n0 - 1)).skip(1) =~= texts(vp_all0.skip(vp_n0))); assert(vp_all0.skip(vp_n0 - 1)[0] == vp_x0); assert(texts(vp_all0.skip(vp_n0 - 1))[0] == vp_x0@); if vp_x0@.len() == 0 { assert(vp_x0@ =~= ""@); } before = result@; }
@hint loop 0 end
    proof { assert(result@.drop_last() =~= before); assert(result@ =~= before.push(result@.last())); }
@hint start
    let ghost mut before = Seq::<AndroidView>::empty();
@fn parser::view::Layout::reconstruct
    ensures r is Ok, r->Ok_0@ == layout_text(*self),
@loop 0
    invariant vp_all0 == refs(self.0@), result@ == unlines(item_texts(self.0@.take(vp_n0))), vp_i0 == vp_n0, self.0.len() == vp_all0.len()
@hint loop 0 start
    let ghost before = result@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { items_step(self.0@, n0); assert(result@ =~= before + item_text(self.0@[n0]) + nl()); }
@hint after 0
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
@fn parser::view::models::AndroidView::parse
    ensures r is Ok <==> jread::<AndroidView>($1@) is Some, r matches Ok(x) ==> jread::<AndroidView>($1@) == Some(x),
@fn parser::view::models::AndroidView::reconstruct
    ensures r is Ok, r->Ok_0@ == item_text(*self),
@hint start
    proof { view_is_obj(*self); }
