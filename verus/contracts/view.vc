@fn api::view::ViewType::from_view
    ensures r is Ok <==> kind_of_view(*$1) is Some, r matches Ok(k) ==> kind_of_view(*$1) == Some(k),
@fn api::view::ViewType::get_type_id
    ensures r == kind_number(*self),
@fn api::view::ViewType::apply_values_to_view
    ensures *final($1) == with_kind(*old($1), self),
@cases self is EditText | self is TextView | self is CheckBox | self is Switch | self is Button | self is ImageView || self is Fab | self is ProgressBar || self is SeekBar
@fn api::view::View::from
    ensures r == node_of($1),
@hint end
    proof { assert(vp_end.children@ =~= Seq::empty()); if vp_end.view is Err { assert(vp_end.view->Err_0 == VpErr); } assert(vp_end.view == node_of($1).view); }
@fn api::view::flatten_views
    ensures r@ == flat($1, (match $2 { Some(p) => p, None => string_of("root"@) }), (match $3 { Some(t) => t, None => 0 })),
    decreases $1,
@hint start
    let ghost vs0 = $1;
@loop 0
    result@ == heads(vs0@, vp_n0 as nat, parent_id, parent_type), children_result@ == kids(vs0, vp_n0 as nat),
@loop 0 start
    proof { assert(vp_x0 == vs0@[vp_n0 - 1]); lemma_flat_empty(vp_x0.children, vp_x0.id, type_id(vp_x0)); }
    let ghost vp_h = result@;
@loop 0 end
    proof { assert(result@ =~= heads(vs0@, vp_n0 as nat, parent_id, parent_type)) by {
        assert(result@ == vp_h.push(written(vp_x0, parent_id, parent_type)));
        } assert(children_result@ =~= kids(vs0, vp_n0 as nat)); }
@fn api::view::View::find_id
@out0 Option<&View>
    ensures r is Some <==> found(*self, $1@) is Some, r matches Some(v) ==> found(*self, $1@) == Some(*v),
    decreases self,
@loop 0
    invariant_except_break vp_out0 is None, found_in(self.children, 0, $1@) == found_in(self.children, vp_n0 as nat, $1@),
    ensures vp_out0 matches Some(v) ==> found_in(self.children, 0, $1@) == Some(*v), vp_out0 is None ==> found_in(self.children, 0, $1@) is None,
@fn api::view::View::find_id_mut
@out0 Option<&mut View>
    ensures
        r is None ==> found(*old(self), $1@) is None && *final(self) == *old(self),
        r matches Some(p) ==> found(*old(self), $1@) == Some(*p) && *final(self) == replaced(*old(self), $1@, *final(p)),
    decreases *old(self),
@hint start
    let ghost ch = self.children;
@loop 0
    invariant_except_break vp_out0 is None, forall|i: int| 0 <= i < vp_n0 ==> vp_fin0[i] == vp_all0[i],
    invariant found_in(ch, 0, $1@) == found_in(ch, vp_n0 as nat, $1@), forall|m: VNode| #[trigger] replaced_in(ch, 0, $1@, m) == replaced_in(ch, vp_n0 as nat, $1@, m),
    ensures vp_out0 is None ==> vp_n0 == vp_all0.len() && vp_fin0 =~= vp_all0,
    vp_out0 matches Some(p) ==> found_in(ch, 0, $1@) == Some(*p) && vp_fin0 == replaced_in(ch, 0, $1@, *final(p)),
@loop 0 break
    proof { assert(replaced_in(ch, 0, $1@, *final(vp_out0->0)) == replaced_in(ch, (vp_n0 - 1) as nat, $1@, *final(vp_out0->0))); assert(vp_fin0 =~= replaced_in(ch, 0, $1@, *final(vp_out0->0))); }
@hint after 0
    proof { if vp_out0 is None { assert(vp_fin0 == ch@); assert(found_in(ch, ch@.len(), $1@) is None); assert(found(*old(self), $1@) is None); assert(vec_of(vp_fin0) == ch); } }
@fn api::view::parse_raw_layout
@into crate::api::view::View
@out1 Option<&mut View>
    ensures r is Ok <==> tree_of($1.0@, $1.0@.len()) is Some, r matches Ok(t) ==> tree_of($1.0@, $1.0@.len()) == Some(t@),
@hint start
    let ghost l = $1.0@;
@loop 0
    tree_of(l, vp_n0 as nat) == Some(result@),
@loop 0 start
    proof { if tree_of(l, vp_n0 as nat) is None { lemma_tree_none(l, vp_n0 as nat, l.len()); } }
    let ghost res0 = result;
    let ghost vw = vp_x0;
    proof { assert(vec_of(res0@) == res0); }
@loop 1
    invariant_except_break vp_out1 is None, forall|i: int| 0 <= i < vp_n1 ==> vp_fin1[i] == vp_all1[i],
    invariant found_in(res0, 0, parent_id@) == found_in(res0, vp_n1 as nat, parent_id@), forall|m: VNode| #[trigger] replaced_in(res0, 0, parent_id@, m) == replaced_in(res0, vp_n1 as nat, parent_id@, m),
    ensures vp_out1 is None ==> vp_n1 == vp_all1.len() && vp_fin1 =~= vp_all1,
    vp_out1 matches Some(p) ==> found_in(res0, 0, parent_id@) == Some(*p) && vp_fin1 == replaced_in(res0, 0, parent_id@, *final(p)),
@loop 1 break
    proof { assert(replaced_in(res0, 0, parent_id@, *final(vp_out1->0)) == replaced_in(res0, (vp_n1 - 1) as nat, parent_id@, *final(vp_out1->0))); assert(vp_fin1 =~= replaced_in(res0, 0, parent_id@, *final(vp_out1->0))); }
