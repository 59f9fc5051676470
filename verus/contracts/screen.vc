@fn parser::logic::variable::VariablePool::default
    ensures r.0@ =~= Seq::empty(),
@fn parser::logic::list_variable::ListVariablePool::default
    ensures r.0@ =~= Seq::empty(),
@fn parser::logic::component::ComponentPool::default
    ensures r.0@ =~= Seq::empty(),
@fn parser::logic::more_block::MoreBlockPool::default
    ensures r.0@ =~= Seq::empty(),
@fn parser::logic::event::EventPool::default
    ensures r.0@ =~= Seq::empty(),
@fn parser::logic::BlockContainer::default
    ensures r.0@ =~= Seq::empty(),
@fn api::screen::Screen::from_parsed
    ensures r is Ok <==> screen_of($1, $2, $3, $4, $5, $6) is Some, r matches Ok(s) ==> screen_of($1, $2, $3, $4, $5, $6) == Some(s),
@hint start
    let ghost l0 = $5; let ghost mut bc1 = $5.block_containers@;
    proof { broadcast use vp_maps; }
@loop 0
    mbs_of(vp_all0, l0.block_containers@, vp_n0 as nat) == Some((vp_out0@, $5.block_containers@)), $5.components == l0.components,
@loop 0 start
    proof { if mbs_of(vp_all0, l0.block_containers@, vp_n0 as nat) is None { mbs_none(vp_all0, l0.block_containers@, vp_n0 as nat, vp_all0.len()); } }
@hint after 0
    proof { bc1 = $5.block_containers@; }
@loop 1
    comps_of(vp_all1, vp_n1 as nat) == Some(vp_out1@),
@loop 1 start
    proof { if comps_of(vp_all1, vp_n1 as nat) is None { comps_none(vp_all1, vp_n1 as nat, vp_all1.len()); } }
@hint before 2
    proof { assert(vp_all2 =~= event_recs(l0)); }
@loop 2
    evs_of(vp_all2, bc1, vp_n2 as nat) == Some((vp_out2@, $5.block_containers@)),
@loop 2 start
    proof { if evs_of(vp_all2, bc1, vp_n2 as nat) is None { evs_none(vp_all2, bc1, vp_n2 as nat, vp_all2.len()); } }
