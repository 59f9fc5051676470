@fn api::block::ListItem::from_str
    ensures r is Ok <==> list_item_of($1@) is Some, r matches Ok(x) ==> list_item_of($1@) == Some(x),
@fn api::block::BlockType::from
    ensures r is Ok <==> block_type_of($1@, $2) is Some, r matches Ok(x) ==> block_type_of($1@, $2) == Some(x),
@fn api::block::Blocks::try_from::parse_block
    ensures
        r is Ok <==> read_block($1, old($2)@) is Some,
        r matches Ok(b) ==> read_block($1, old($2)@) == Some((b, final($2)@)) && final($2)@.len() < old($2)@.len(),
    decreases old($2)@.len(), 0int,
@hint start
    let ghost m = $2@;
    proof { del_less(m, $1); block_uses($1, m); if let Some(b) = lhm_get(m, $1) { nest_uses(b.sub_stack1, lhm_del(m, $1)); if let Some(p1) = read_nest(b.sub_stack1, lhm_del(m, $1)) { nest_uses(b.sub_stack2, p1.1); } } }
@fn api::block::Blocks::try_from::parse_blocks
    ensures
        r is Ok <==> read_seq($1, old($2)@) is Some,
        r matches Ok(b) ==> read_seq($1, old($2)@) == Some((b.0@, final($2)@)) && final($2)@.len() < old($2)@.len(),
    decreases old($2)@.len(), 1int,
@hint start
    let ghost m = $2@;
    proof { seq_uses($1, m); }
@loop 0
    $2@.len() <= m.len(),
    read_seq(current_id, $2@) is None ==> read_seq($1, m) is None,
    read_seq(current_id, $2@) matches Some(t) ==> read_seq($1, m) == Some((result@ + t.0, t.1)),
    ensures read_seq($1, m) == Some((result@, $2@)),
    decreases $2@.len(),
@fn api::block::BlockContent::apply_blocks@parse_block
    ensures
        r is Ok <==> read_args(self.items@, old($1)@, self.items@.len()) is Some,
        r matches Ok(c) ==> read_args(self.items@, old($1)@, self.items@.len()) == Some((c.items@, final($1)@)) && final($1)@.len() <= old($1)@.len(),
    decreases old($1)@.len(), 1int,
@collect0 Result<Vec<_>,_>
@hint start
    let ghost its = self.items@; let ghost m = $1@;
@loop 0
    vp_all0 == its,
    read_args(its, m, vp_n0 as nat) is Some,
    (vp_out0@, $1@) == read_args(its, m, vp_n0 as nat)->0, $1@.len() <= m.len(),
@hint loop 0 start
    proof { if read_args(its, m, vp_n0 as nat) is None { args_none(its, m, vp_n0 as nat, its.len()); } args_use(its, m, vp_n0 as nat); }
@fn api::block::Blocks::try_from
    ensures r is Ok <==> blocks_of($1.0@) is Some, r matches Ok(x) ==> blocks_of($1.0@) == Some(x),
@hint start
    let ghost l = $1.0@;
@loop 0
    vp_all0 == l, pool_of(l, vp_n0 as nat) == Some(acc@),
@hint loop 0 start
    proof { if pool_of(l, vp_n0 as nat) is None { pool_none(l, vp_n0 as nat, l.len()); } }
