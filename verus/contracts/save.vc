@fn parser::ResourceFileWrapper::get_full_name
    requires own_name(*self) is Some,
    ensures Some(r@) == own_name(*self),
@fn api::screen::MoreBlock::into_parser_more_block
    ensures r.0 == mb_rec(self), r.1 == self.code,
@fn api::ParsedSketchwareProject::from::to_screen_logic
    requires codes_fit($6@, $5@),
    ensures logic_saved($1, $2, $3, $4, $5, $6, r),
@hint start
    let ghost es = $6@; let ghost ms = $5@; let ghost cs = $4@;
    proof { broadcast use vp_maps; }
@loop 0
    vp_all0 == es, vp_out0@ == recs_saved(es, vp_n0 as nat), block_containers@ == puts(Seq::empty(), ev_keys(es), ev_conts(es), vp_n0 as nat),
@loop 0 start
    proof { assert(vp_x0 == es[vp_n0 - 1]); assert(ev_keys(es)[vp_n0 - 1] == string_of(container_name(vp_x0))); assert(ev_conts(es)[vp_n0 - 1] == cont_of(vp_x0.code)); }
@loop 1
    vp_all1 == ms, vp_out1@ == puts(Seq::empty(), mb_ids(ms), mb_recs(ms), vp_n1 as nat), block_containers@ == puts(puts(Seq::empty(), ev_keys(es), ev_conts(es), es.len()), mb_keys(ms), mb_conts(ms), vp_n1 as nat),
@loop 1 start
    proof { assert(vp_x1 == ms[vp_n1 - 1]); assert(mb_ids(ms)[vp_n1 - 1] == vp_x1.0); assert(mb_recs(ms)[vp_n1 - 1] == mb_rec(vp_x1.1)); assert(mb_keys(ms)[vp_n1 - 1] == mb_key(vp_x1.0)); assert(mb_conts(ms)[vp_n1 - 1] == cont_of(vp_x1.1.code)); }
@loop 2
    vp_all2 == cs, vp_out2@.len() == vp_n2, forall|i: int| 0 <= i < vp_n2 ==> comp_rec((#[trigger] cs[i]).1, cs[i].0, vp_out2@[i]),
@fn api::ParsedSketchwareProject::from
    requires savable($1),
    ensures saves_as($1, r),
@hint start
    let ghost m = $1; let ghost ss = m.screens@; let ghost cs = m.custom_views@; let ghost mut ls: Seq<ScreenLogic> = Seq::empty();
    proof { broadcast use vp_maps; }
@loop 0
    vp_all0 == refs(ss), acts_are(ss, vp_out0@, vp_n0),
@loop 1
    vp_all1 == refs(cs), customs_are(cs, vp_out1@, vp_n1),
@loop 2
    vp_all2 == ss, logics_are(ss, ls, vp_n2), logic_screens@ == puts(Seq::empty(), javas(ss), ls, vp_n2 as nat), layouts@ == puts(Seq::empty(), sc_names(ss), sc_layouts(ss), vp_n2 as nat), fabs@ == fabs_saved(ss, vp_n2 as nat),
@loop 2 start
    let ghost s0 = ss[vp_n2 - 1]; let ghost base = logic_screens@;
@loop 2 end
    proof {
        assert(javas(ss)[vp_n2 - 1] == s0.java_name); assert(sc_names(ss)[vp_n2 - 1] == s0.layout_name); assert(sc_layouts(ss)[vp_n2 - 1] == layout_saved(s0.layout));
        let l = lhm_get(logic_screens@, s0.java_name)->0; lhm_get_put(base, s0.java_name, l, s0.java_name);
        let old = ls; ls = ls.push(l); puts_ext(Seq::empty(), javas(ss), old, ls, (vp_n2 - 1) as nat);
    }
@loop 3
    vp_all3 == cs, layouts@ == puts(puts(Seq::empty(), sc_names(ss), sc_layouts(ss), ss.len()), cv_names(cs), cv_layouts(cs), vp_n3 as nat),
@loop 3 start
    proof { let c0 = cs[vp_n3 - 1]; assert(cv_names(cs)[vp_n3 - 1] == c0.res_name); assert(cv_layouts(cs)[vp_n3 - 1] == layout_saved(c0.layout)); }
@loop 4
    vp_all4 == m.resources.images@, items_of(vp_all4, vp_out4@, vp_n4), image_resource_files@ == files_saved(vp_all4, m.automatic_res_file_ids, vp_n4 as nat),
@loop 5
    vp_all5 == m.resources.sounds@, items_of(vp_all5, vp_out5@, vp_n5), sound_resource_files@ == files_saved(vp_all5, m.automatic_res_file_ids, vp_n5 as nat),
@loop 6
    vp_all6 == m.resources.fonts@, items_of(vp_all6, vp_out6@, vp_n6), font_resource_files@ == files_saved(vp_all6, m.automatic_res_file_ids, vp_n6 as nat),
@hint end
    proof { reveal_strlit("Y"); reveal_strlit("N"); assert("Y"@ != "N"@) by { assert("Y"@[0] != "N"@[0]); } assert(logics_are(m.screens@, ls, m.screens@.len() as int)); assert(libs_of(vp_end.library) == m.libraries); assert(meta_of(vp_end.project) == m.metadata); assert(colors_of(vp_end.project) == m.colors); }
