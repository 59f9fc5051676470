@fn parser::resource::ResourceItem::parse
    ensures r is Ok <==> jread::<ResourceItem>($1@) is Some, r matches Ok(x) ==> jread::<ResourceItem>($1@) == Some(x),
@fn parser::resource::ResourceItem::reconstruct
    ensures r is Ok, r->Ok_0@ == item_text(*self),
@hint start
    proof { res_item_text(*self); }
@fn parser::resource::Resource::parse
    ensures r is Ok <==> resource_read($1@) is Some, r matches Ok(x) ==> resource_read($1@) == Some(x),
@loops 1
@loop 0
    invariant res_run(texts(iterator.rem()), cur_section, result) == resource_read($1@), line_count + iterator.rem().len() <= u32::MAX
    ensures resource_read($1@) == Some(result)
    decreases iterator.rem().len()
@hint start
    proof { assert("\n"@ =~= nl()); }
@hint loop 0 start
    let ghost before = texts(iterator.rem()); let ghost r0 = result;
    proof { if iterator.rem().len() > 0 { assert(texts(iterator.rem().skip(1)) =~= before.skip(1)); } }
@fn parser::resource::Resource::reconstruct
    ensures r is Ok <==> resource_text(*self) is Some, r matches Ok(x) ==> resource_text(*self) == Some(x@),
@loop 0
    invariant vp_all0 == refs(self.images@), acc@ == unlines(item_texts(self.images@.take(vp_n0)))
@loop 1
    invariant vp_all1 == refs(self.sounds@), acc@ == unlines(item_texts(self.sounds@.take(vp_n1)))
@loop 2
    invariant vp_all2 == refs(self.fonts@), acc@ == unlines(item_texts(self.fonts@.take(vp_n2)))
@hint loop 0 start
    let ghost before = acc@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { res_item_text(self.images@[n0]); items_step(self.images@, n0); assert(acc@ =~= before + item_text(self.images@[n0]) + nl()); }
@hint after 0
    proof { assert(self.images@.take(self.images@.len() as int) =~= self.images@); }
@hint loop 1 start
    let ghost before = acc@; let ghost n0 = vp_n1 - 1;
@hint loop 1 end
    proof { res_item_text(self.sounds@[n0]); items_step(self.sounds@, n0); assert(acc@ =~= before + item_text(self.sounds@[n0]) + nl()); }
@hint after 1
    proof { assert(self.sounds@.take(self.sounds@.len() as int) =~= self.sounds@); }
@hint loop 2 start
    let ghost before = acc@; let ghost n0 = vp_n2 - 1;
@hint loop 2 end
    proof { res_item_text(self.fonts@[n0]); items_step(self.fonts@, n0); assert(acc@ =~= before + item_text(self.fonts@[n0]) + nl()); }
@hint after 2
    proof { assert(self.fonts@.take(self.fonts@.len() as int) =~= self.fonts@); }
