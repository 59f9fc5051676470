@fn api::block::BlockContent::parse_wo_params
    ensures r is Ok <==> content_of($1@) is Some, r matches Ok(c) ==> content_of($1@) == Some(c),
@hint start
    let ghost ws = words($1@);
@loop 0
    vp_all0.len() == ws.len(), texts(vp_all0) == ws,
    blank_words(ws, vp_n0 as nat) is Some,
    items@ == blank_words(ws, vp_n0 as nat)->0,
@hint loop 0 start
    proof { assert(texts(vp_all0)[vp_n0 - 1] == vp_x0@); kind_there(vp_x0@); if blank_words(ws, vp_n0 as nat) is None { blank_none(ws, vp_n0 as nat, ws.len()); } }
@hint after 1
    proof { assert(vp_out1@ == vp_x0@.skip(3)); assert(vp_out1 == string_of(vp_x0@.skip(3))); }
@fn api::block::BlockContent::parse
    ensures r is Ok <==> full_content($1@, $2@) is Some, r matches Ok(c) ==> full_content($1@, $2@) == Some(c),
@hint start
    let ghost ws = words($1@); let ghost a0 = $2@;
@loop 0
    vp_all0.len() == ws.len(), texts(vp_all0) == ws,
    full_words(ws, a0, vp_n0 as nat) is Some,
    items@ == (full_words(ws, a0, vp_n0 as nat)->0).0,
    0 <= (full_words(ws, a0, vp_n0 as nat)->0).1 <= a0.len(),
    $2@ == a0.skip((full_words(ws, a0, vp_n0 as nat)->0).1),
@hint loop 0 start
    proof {
        assert(texts(vp_all0)[vp_n0 - 1] == vp_x0@); kind_there(vp_x0@); if full_words(ws, a0, vp_n0 as nat) is None { full_none(ws, a0, vp_n0 as nat, ws.len()); }
        if $2@.len() > 0 { ref_mark($2@[0]@); assert($2@.remove(0) =~= $2@.skip(1)); }
        assert forall|k: int| 0 <= k < a0.len() implies #[trigger] a0.skip(k).skip(1) == a0.skip(k + 1) by { assert(a0.skip(k).skip(1) =~= a0.skip(k + 1)); }
    }
@hint after 1
    proof { assert(vp_out1@ == vp_x0@.skip(3)); assert(vp_out1 == string_of(vp_x0@.skip(3))); }
@fn api::block::BlockContent::apply_args
    ensures r is Ok <==> with_args(self, $1@) is Some, r matches Ok(c) ==> with_args(self, $1@) == Some(c),
@collect0 Result<Vec<_>,_>
@hint start
    let ghost its = self.items@; let ghost a0 = $1@;
@loop 0
    vp_all0 == its,
    apply(its, a0, vp_n0 as nat) is Some,
    vp_out0@ == (apply(its, a0, vp_n0 as nat)->0).0,
    0 <= (apply(its, a0, vp_n0 as nat)->0).1 <= a0.len(),
    $1@ == a0.skip((apply(its, a0, vp_n0 as nat)->0).1),
@hint loop 0 start
    proof {
        if apply(its, a0, vp_n0 as nat) is None { apply_none(its, a0, vp_n0 as nat, its.len()); }
        if $1@.len() > 0 { ref_mark($1@[0]@); assert($1@.remove(0) =~= $1@.skip(1)); }
        assert forall|k: int| 0 <= k < a0.len() implies #[trigger] a0.skip(k).skip(1) == a0.skip(k + 1) by { assert(a0.skip(k).skip(1) =~= a0.skip(k + 1)); }
    }
@fn api::block::BlockContent::get_args
    ensures r@ == refs(params(self.items@, self.items@.len())),
@loop 0
    vp_all0 == refs(self.items@), vp_out0@ == refs(params(self.items@, vp_n0 as nat)),
@hint loop 0 end
    proof { assert(vp_out0@ =~= refs(params(self.items@, vp_n0 as nat))); }
@fn api::block::BlockContent::take_args
    ensures r.0.items@ == emptied_items(self.items@), r.1@ == params(self.items@, self.items@.len()),
@hint start
    let ghost its = self.items@;
@loop 0
    vp_all0 == its, vp_out0@ == emptied_items(its).take(vp_n0), arguments@ == params(its, vp_n0 as nat),
@hint loop 0 end
    proof { assert(vp_out0@ =~= emptied_items(its).take(vp_n0)); }
@hint after 0
    proof { assert(emptied_items(its).take(vp_n0) =~= emptied_items(its)); }
@fn api::block::BlockContent::to_string
    ensures r@ == content_text(*self),
@loop 0
    vp_all0 == refs(self.items@), output@ == print_items(self.items@, vp_n0 as nat),
