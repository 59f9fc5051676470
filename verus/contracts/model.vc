@fn parser::logic::ScreenLogic::new_empty
    ensures r == empty_logic($1),
@hint end
    proof { broadcast use vp_maps; assert(vp_end.block_containers@ =~= Seq::empty()); ax_lhm_of(vp_end.block_containers); }
@fn parser::ResourceFileWrapper::make_random_id
    ensures r matches ResourceFileWrapper::U32Id { id: _, res_full_name: vp_n, res_type: vp_t } && vp_n == $1 && vp_t == $2,
@fn api::SketchwareProject::try_from
    ensures r is Ok <==> openable($1), r matches Ok(m) ==> opens_as($1, m),
@hint start
    let ghost p0 = $1;
    let ghost mut rest1 = rest_of(p0); let ghost mut ids: Seq<u32> = Seq::empty(); let ghost mut ia = ids; let ghost mut ib = ids; let ghost mut ic = ids;
    proof { broadcast use vp_maps; }
@loop 0
    acts_of(vp_all0, rest_of(p0), vp_n0 as nat) == Some((acc@, Rest { layouts: $1.view.layouts@, logics: $1.logic.screens@, fabs: $1.view.fabs@ })),
    $1.resource_files == p0.resource_files, $1.resource == p0.resource, $1.library == p0.library, $1.project == p0.project,
@loop 0 start
    proof { if acts_of(vp_all0, rest_of(p0), vp_n0 as nat) is None { acts_none(vp_all0, rest_of(p0), vp_n0 as nat, vp_all0.len()); } }
@hint after 0
    proof { rest1 = Rest { layouts: $1.view.layouts@, logics: $1.logic.screens@, fabs: $1.view.fabs@ }; }
@loop 1
    customs_of(vp_all1, rest1.layouts, vp_n1 as nat) == Some((acc@, $1.view.layouts@)),
    $1.resource_files == p0.resource_files, $1.resource == p0.resource, $1.library == p0.library, $1.project == p0.project,
@loop 1 start
    proof { if customs_of(vp_all1, rest1.layouts, vp_n1 as nat) is None { customs_none(vp_all1, rest1.layouts, vp_n1 as nat, vp_all1.len()); } }
@hint before 2
    proof { ids = Seq::empty(); conv_zero(vp_all2, files_of(p0, 0), ids, ResourceType::Image); }
@loop 2
    $1.resource_files is Some <==> p0.resource_files is Some,
    files_of($1, 1) == files_of(p0, 1), files_of($1, 2) == files_of(p0, 2),
    ids_ok(files_of(p0, 0), ids, vp_n2), conv(vp_all2, files_of(p0, 0), ids, ResourceType::Image, vp_n2 as nat) == Some((vp_out2@, files_of($1, 0))),
@loop 2 start
    let ghost out0 = vp_out2@; let ghost cur0 = files_of($1, 0);
    proof { conv_kind(vp_all2, files_of(p0, 0), ids, ResourceType::Image, (vp_n2 - 1) as nat);
        if cur0 is Some && !(cur0->0).dom().contains(vp_x2.full_name) { conv_fail(vp_all2, files_of(p0, 0), ResourceType::Image, vp_n2, out0, cur0->0); } }
@loop 2 end
    proof { conv_step(vp_all2, files_of(p0, 0), ids, ResourceType::Image, vp_n2, out0, cur0, vp_v); ids = ids_with(files_of(p0, 0), ids, vp_v); }
@hint before 3
    proof { ids = Seq::empty(); conv_zero(vp_all3, files_of(p0, 1), ids, ResourceType::Sound); }
@loop 3
    $1.resource_files is Some <==> p0.resource_files is Some,
    files_of($1, 2) == files_of(p0, 2),
    ids_ok(files_of(p0, 1), ids, vp_n3), conv(vp_all3, files_of(p0, 1), ids, ResourceType::Sound, vp_n3 as nat) == Some((vp_out3@, files_of($1, 1))),
@loop 3 start
    let ghost out0 = vp_out3@; let ghost cur0 = files_of($1, 1);
    proof { conv_kind(vp_all3, files_of(p0, 1), ids, ResourceType::Sound, (vp_n3 - 1) as nat);
        if cur0 is Some && !(cur0->0).dom().contains(vp_x3.full_name) { conv_fail(vp_all3, files_of(p0, 1), ResourceType::Sound, vp_n3, out0, cur0->0); } }
@loop 3 end
    proof { conv_step(vp_all3, files_of(p0, 1), ids, ResourceType::Sound, vp_n3, out0, cur0, vp_v); ids = ids_with(files_of(p0, 1), ids, vp_v); }
@hint before 4
    proof { ids = Seq::empty(); conv_zero(vp_all4, files_of(p0, 2), ids, ResourceType::Font); }
@loop 4
    $1.resource_files is Some <==> p0.resource_files is Some,
    ids_ok(files_of(p0, 2), ids, vp_n4), conv(vp_all4, files_of(p0, 2), ids, ResourceType::Font, vp_n4 as nat) == Some((vp_out4@, files_of($1, 2))),
@loop 4 start
    let ghost out0 = vp_out4@; let ghost cur0 = files_of($1, 2);
    proof { conv_kind(vp_all4, files_of(p0, 2), ids, ResourceType::Font, (vp_n4 - 1) as nat);
        if cur0 is Some && !(cur0->0).dom().contains(vp_x4.full_name) { conv_fail(vp_all4, files_of(p0, 2), ResourceType::Font, vp_n4, out0, cur0->0); } }
@loop 4 end
    proof { conv_step(vp_all4, files_of(p0, 2), ids, ResourceType::Font, vp_n4, out0, cur0, vp_v); ids = ids_with(files_of(p0, 2), ids, vp_v); }
@hint after 2
    proof { ia = ids; }
@hint after 3
    proof { ib = ids; }
@hint after 4
    proof { ic = ids; }
@hint end
    proof { if vp_end is Ok { let m = vp_end->Ok_0;
        assert(ids_ok(files_of(p0, 0), ia, p0.resource.images@.len() as int)); assert(ids_ok(files_of(p0, 1), ib, p0.resource.sounds@.len() as int)); assert(ids_ok(files_of(p0, 2), ic, p0.resource.fonts@.len() as int));
        assert(res_is(p0.resource.images@, files_of(p0, 0), ResourceType::Image, m.resources.images@));
        assert(res_is(p0.resource.sounds@, files_of(p0, 1), ResourceType::Sound, m.resources.sounds@));
        assert(res_is(p0.resource.fonts@, files_of(p0, 2), ResourceType::Font, m.resources.fonts@));
        assert(m.libraries == libs_of(p0.library));
        assert(m.screens@ == (screens_of(p0)->0).0);
        assert(m.custom_views@ == (views_of(p0)->0).0);
        assert(m.automatic_res_file_ids == (p0.resource_files is None));
        assert(m.metadata == meta_of(p0.project)); assert(m.colors == colors_of(p0.project));
    } }
