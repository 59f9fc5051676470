@fn api::block::BlockType::to_string
    ensures r@ == type_text(*self),
@fn api::block::BlockType::get_typename
    ensures r == type_name_text(*self),
@fn api::block::BlockContent::builder
    ensures r.content@ == Seq::<SpecItem>::empty(),
@fn api::block::BlockContentBuilder::text
    ensures r.content@ == self.content@.push(SpecItem::Text(string_of($1.disp()))),
@fn api::block::BlockContentBuilder::build
    ensures r.items == self.content,
@fn api::block::Block::new
    ensures r == (ABlock { sub_stack1: None, sub_stack2: None, color: cat_color($1), op_code: $2, content: $3, block_type: $4 }),
@fn api::block::Blocks::to_block_container
    requires seq_whole(self.0, self.0@.len()), 1 <= $1, $1 + seq_size(self.0, self.0@.len()) <= i32::MAX,
    ensures r.0@ == w_seq(self.0, self.0@.len(), $1 as int),
    decreases seq_size(self.0, self.0@.len()), 1int,
@hint start
    let ghost v = self.0; let ghost mut k = 0nat;
@loop 0
    k <= v@.len(), blocks.rem() == v@.skip(k as int), result@ == w_seq(v, k, $1 as int), id_counter == $1 - 1 + seq_size(v, k),
    ensures k == v@.len(),
    decreases v@.len() - k,
@loop 0 start
    proof { k = k + 1; reveal(sz); reveal(wh); reveal(wr); seq_up_to(v, (k - 1) as nat, v@.len()); assert(v@.skip(k - 1).skip(1) =~= v@.skip(k as int)); }
@fn api::block::Blocks::into
    requires seq_whole(self.0, self.0@.len()), 10 + seq_size(self.0, self.0@.len()) <= i32::MAX,
    ensures r.0@ == w_seq(self.0, self.0@.len(), 10),
@fn api::block::Blocks::to_block_container::convert_block
@rlimit 40
    requires wh($2), *old($3) + sz($2) < i32::MAX,
    ensures
        final($1)@ == old($1)@ + wr($2, *old($3) + 1, $4),
        *final($3) == *old($3) + sz($2), r == *old($3) + 1,
    decreases sz($2), 0int,
@hint start
    let ghost b0 = $2; let ghost id0 = *$3 as int; let ghost its = b0.content.items; let ghost k = items_size(its, its@.len()); let ghost res0 = $1@;
    proof { broadcast use vp_num; c15_take(b0.content, BlockContent { items: vec_of(emptied_items(its@)) }); block_parts(b0, id0 + 1, $4); nest_num(b0.sub_stack1, id0 + 2 + k); nest_num(b0.sub_stack2, id0 + 2 + k + nest_size(b0.sub_stack1)); }
@hint end
    proof {
        let h = $1@[res0.len() as int]; let g = head(b0, id0 + 1, $4);
        assert(h.id == g.id); assert(h.color == g.color); assert(h.next_block == g.next_block); assert(h.op_code == g.op_code); assert(h.parameters == g.parameters); assert(h.spec == g.spec); assert(h.r#type == g.r#type); assert(h.type_name == g.type_name); assert(h.sub_stack1 == g.sub_stack1); assert(h.sub_stack2 == g.sub_stack2);
        assert($1@ =~= res0 + wr(b0, id0 + 1, $4));
    }
@fn api::block::Blocks::to_block_container::process_content
    requires items_whole($1.items, $1.items@.len()), *old($2) + items_size($1.items, $1.items@.len()) < i32::MAX,
    ensures
        r.0@ == items_texts($1.items, $1.items@.len(), *old($2) + 1),
        r.1@ == w_items($1.items, $1.items@.len(), *old($2) + 1),
        r.2.items@ == emptied_items($1.items@),
        *final($2) == *old($2) + items_size($1.items, $1.items@.len()),
    decreases items_size($1.items, $1.items@.len()), 1int,
@hint start
    let ghost its = $1.items; let ghost id0 = *$2 as int; let ghost ps = params(its@, its@.len());
    proof { by_args(its, its@.len(), id0 + 1); }
@loop 0
    vp_all0 == ps, *$2 == id0 + args_size(ps, vp_n0 as nat), block_args@ == w_args(ps, vp_n0 as nat, id0 + 1), vp_out0@ == args_texts(ps, vp_n0 as nat, id0 + 1),
@loop 0 start
    proof { args_up_to(ps, (vp_n0 - 1) as nat, ps.len()); assert(awh(ps[vp_n0 - 1])); arg_cases(ps[vp_n0 - 1], id0 + 1 + args_size(ps, (vp_n0 - 1) as nat)); }
