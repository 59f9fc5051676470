@fn api::view_name_to_logic
    ensures r@ == java_name($1@),
@loop 0
    vp_out0@ + camel(vp_all0.skip(vp_n0), capitalize) == camel($1@, true),
@loop 0 start
    let ghost vp_cap = capitalize; let ghost vp_o = vp_out0@; let ghost vp_rest = vp_all0.skip(vp_n0 - 1);
    proof { assert(vp_rest[0] == vp_x0); assert(vp_rest.skip(1) =~= vp_all0.skip(vp_n0)); }
@loop 0 end
    proof { assert(vp_o + (seq![if vp_cap { upper(vp_x0) } else { vp_x0 }] + camel(vp_rest.skip(1), false)) =~= vp_out0@ + camel(vp_rest.skip(1), false)); }
@hint after 0
    proof { assert(vp_out0@ + camel(vp_all0.skip(vp_n0), capitalize) =~= vp_out0@); }
