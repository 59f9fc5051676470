@fn parser::logic::variable::Variable::parse
    ensures r is Ok <==> var_read($1@) is Some, r matches Ok(x) ==> var_read($1@) == Some(x),
@hint start
    proof { assert(":"@ =~= colon()); }
@fn parser::logic::variable::Variable::reconstruct
    ensures r is Ok, r->Ok_0@ == var_text(*self),
@hint start
    proof { assert(":"@ =~= colon()); }
@fn parser::logic::list_variable::ListVariable::parse
    ensures r is Ok <==> list_read($1@) is Some, r matches Ok(x) ==> list_read($1@) == Some(x),
@hint start
    proof { assert(":"@ =~= colon()); }
@fn parser::logic::list_variable::ListVariable::reconstruct
    ensures r is Ok, r->Ok_0@ == list_text(*self),
@hint start
    proof { assert(":"@ =~= colon()); }
@fn parser::logic::more_block::MoreBlock::parse
    ensures r is Ok <==> func_read($1@) is Some, r matches Ok(x) ==> func_read($1@) == Some(x),
@fn parser::logic::more_block::MoreBlock::reconstruct
    ensures r is Ok, r->Ok_0@ == func_text(*self),
@hint start
    proof { assert(":"@ =~= colon()); }
@fn parser::logic::component::Component::parse
    ensures r is Ok <==> jread::<Component>($1@) is Some, r matches Ok(x) ==> jread::<Component>($1@) == Some(x),
@hint start
    proof {  }
@fn parser::logic::component::Component::reconstruct
    ensures r is Ok, r->Ok_0@ == item_text(*self),
@hint start
    proof {  }
@fn parser::logic::event::Event::parse
    ensures r is Ok <==> jread::<PEvent>($1@) is Some, r matches Ok(x) ==> jread::<PEvent>($1@) == Some(x),
@hint start
    proof {  }
@fn parser::logic::event::Event::reconstruct
    ensures r is Ok, r->Ok_0@ == item_text(*self),
@hint start
    proof {  }
@fn parser::logic::Block::parse
    ensures r is Ok <==> jread::<Block>($1@) is Some, r matches Ok(x) ==> jread::<Block>($1@) == Some(x),
@hint start
    proof {  }
@fn parser::logic::Block::reconstruct
    ensures r is Ok, r->Ok_0@ == item_text(*self),
@hint start
    proof {  }
@fn parser::logic::variable::VariableType::try_from
    ensures r is Ok <==> vt_of($1) is Some, r matches Ok(x) ==> vt_of($1) == Some(x),
@fn parser::logic::variable::VariablePool::parse
    ensures r is Ok <==> one(vars_run(lines($1@))) is Some, r matches Ok(x) ==> one(vars_run(lines($1@))) == Some(x),
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); }
@fn parser::logic::variable::VariablePool::parse_iter
    requires old($1).steps() + old($1).rem().len() < u32::MAX
    ensures
        r is Ok <==> vars_run(texts(old($1).rem())) is Some,
        r matches Ok(x) ==> vars_run(texts(old($1).rem())) == Some((x, texts(final($1).rem()))),
        final($1).steps() + final($1).rem().len() <= old($1).steps() + old($1).rem().len() + (if final($1).rem().len() == 0 { 1int } else { 0 }),
        final($1).rem().len() <= old($1).rem().len(),
@hint start
    let ghost mut xs = Seq::<Variable>::empty();
    proof { broadcast use vp_maps; assert(xs.map_values(|x: Variable| e_var(x)) =~= Seq::empty()); }
@loop 0
    invariant pool_run(texts($1.rem()), xs, rd_var()) == pool_run(texts(vp_all0), Seq::empty(), rd_var()), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len(), vp_i0 <= vp_n0, vp_all0.len() < u32::MAX, vp_all0 == old($1).rem(), result_map@ == map_var(xs)
    ensures pool_run(texts(vp_all0), Seq::empty(), rd_var()) == Some((xs, texts($1.rem()))), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len() + (if $1.rem().len() == 0 { 1int } else { 0 }), result_map@ == map_var(xs)
@hint loop 0 start
    proof { assert(texts(vp_all0.skip(vp_n0 - 1)).skip(1) =~= texts(vp_all0.skip(vp_n0))); assert(vp_all0.skip(vp_n0 - 1)[0] == vp_x0); assert(texts(vp_all0.skip(vp_n0 - 1))[0] == vp_x0@); if vp_x0@.len() == 0 { assert(vp_x0@ =~= ""@); } }
@hint loop 0 end
    proof { let x = (rd_var())(vp_x0@)->0; map_var_push(xs, x); xs = xs.push(x); }
@fn parser::logic::variable::VariablePool::reconstruct
    ensures r is Ok, r->Ok_0@ == vars_text(*self),
@hint start
    proof { assert("\n"@ =~= nl()); }
@loop 0
    invariant vp_all0 == Seq::new(self.0@.len(), |i: int| &self.0@[i].1), acc@ == prelines(var_lines(*self).take(vp_n0))
@hint before 0
    proof { assert(var_lines(*self).take(0) =~= Seq::empty()); }
@hint loop 0 start
    let ghost before = acc@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { prelines_step(var_lines(*self), n0); assert(acc@ =~= before + nl() + var_lines(*self)[n0]); }
@hint after 0
    proof { assert(var_lines(*self).take(vp_n0) =~= var_lines(*self)); }
@fn parser::logic::list_variable::ListVariablePool::parse
    ensures r is Ok <==> one(lists_run(lines($1@))) is Some, r matches Ok(x) ==> one(lists_run(lines($1@))) == Some(x),
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); }
@fn parser::logic::list_variable::ListVariablePool::parse_iter
    requires old($1).steps() + old($1).rem().len() < u32::MAX
    ensures
        r is Ok <==> lists_run(texts(old($1).rem())) is Some,
        r matches Ok(x) ==> lists_run(texts(old($1).rem())) == Some((x, texts(final($1).rem()))),
        final($1).steps() + final($1).rem().len() <= old($1).steps() + old($1).rem().len() + (if final($1).rem().len() == 0 { 1int } else { 0 }),
        final($1).rem().len() <= old($1).rem().len(),
@hint start
    let ghost mut xs = Seq::<ListVariable>::empty();
    proof { broadcast use vp_maps; assert(xs.map_values(|x: ListVariable| e_list(x)) =~= Seq::empty()); }
@loop 0
    invariant pool_run(texts($1.rem()), xs, rd_list()) == pool_run(texts(vp_all0), Seq::empty(), rd_list()), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len(), vp_i0 <= vp_n0, vp_all0.len() < u32::MAX, vp_all0 == old($1).rem(), result@ == map_list(xs)
    ensures pool_run(texts(vp_all0), Seq::empty(), rd_list()) == Some((xs, texts($1.rem()))), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len() + (if $1.rem().len() == 0 { 1int } else { 0 }), result@ == map_list(xs)
@hint loop 0 start
    proof { assert(texts(vp_all0.skip(vp_n0 - 1)).skip(1) =~= texts(vp_all0.skip(vp_n0))); assert(vp_all0.skip(vp_n0 - 1)[0] == vp_x0); assert(texts(vp_all0.skip(vp_n0 - 1))[0] == vp_x0@); if vp_x0@.len() == 0 { assert(vp_x0@ =~= ""@); } }
@hint loop 0 end
    proof { let x = (rd_list())(vp_x0@)->0; map_list_push(xs, x); xs = xs.push(x); }
@fn parser::logic::list_variable::ListVariablePool::reconstruct
    ensures r is Ok, r->Ok_0@ == lists_text(*self),
@hint start
    proof { assert("\n"@ =~= nl()); }
@loop 0
    invariant vp_all0 == Seq::new(self.0@.len(), |i: int| &self.0@[i].1), acc@ == prelines(list_lines(*self).take(vp_n0))
@hint before 0
    proof { assert(list_lines(*self).take(0) =~= Seq::empty()); }
@hint loop 0 start
    let ghost before = acc@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { prelines_step(list_lines(*self), n0); assert(acc@ =~= before + nl() + list_lines(*self)[n0]); }
@hint after 0
    proof { assert(list_lines(*self).take(vp_n0) =~= list_lines(*self)); }
@fn parser::logic::more_block::MoreBlockPool::parse
    ensures r is Ok <==> one(funcs_run(lines($1@))) is Some, r matches Ok(x) ==> one(funcs_run(lines($1@))) == Some(x),
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); }
@fn parser::logic::more_block::MoreBlockPool::parse_iter
    requires old($1).steps() + old($1).rem().len() < u32::MAX
    ensures
        r is Ok <==> funcs_run(texts(old($1).rem())) is Some,
        r matches Ok(x) ==> funcs_run(texts(old($1).rem())) == Some((x, texts(final($1).rem()))),
        final($1).steps() + final($1).rem().len() <= old($1).steps() + old($1).rem().len() + (if final($1).rem().len() == 0 { 1int } else { 0 }),
        final($1).rem().len() <= old($1).rem().len(),
@hint start
    let ghost mut xs = Seq::<MoreBlock>::empty();
    proof { broadcast use vp_maps; assert(xs.map_values(|x: MoreBlock| e_func(x)) =~= Seq::empty()); }
@loop 0
    invariant pool_run(texts($1.rem()), xs, rd_func()) == pool_run(texts(vp_all0), Seq::empty(), rd_func()), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len(), vp_i0 <= vp_n0, vp_all0.len() < u32::MAX, vp_all0 == old($1).rem(), more_blocks@ == xs
    ensures pool_run(texts(vp_all0), Seq::empty(), rd_func()) == Some((xs, texts($1.rem()))), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len() + (if $1.rem().len() == 0 { 1int } else { 0 }), more_blocks@ == xs
@hint loop 0 start
    proof { assert(texts(vp_all0.skip(vp_n0 - 1)).skip(1) =~= texts(vp_all0.skip(vp_n0))); assert(vp_all0.skip(vp_n0 - 1)[0] == vp_x0); assert(texts(vp_all0.skip(vp_n0 - 1))[0] == vp_x0@); if vp_x0@.len() == 0 { assert(vp_x0@ =~= ""@); } }
@hint loop 0 end
    proof { let x = (rd_func())(vp_x0@)->0; xs = xs.push(x); assert(more_blocks@ =~= xs); }
@loop 1
    invariant vp_all1 == xs, result@ == map_func(xs.take(vp_n1))
@hint before 1
    proof { assert(xs.take(0) =~= Seq::empty()); assert(Seq::<MoreBlock>::empty().map_values(|x: MoreBlock| e_func(x)) =~= Seq::empty()); }
@hint loop 1 end
    proof { map_func_push(xs.take(vp_n1 - 1), vp_x1); assert(xs.take(vp_n1) =~= xs.take(vp_n1 - 1).push(vp_x1)); }
@hint after 1
    proof { assert(xs.take(vp_n1) =~= xs); }
@fn parser::logic::more_block::MoreBlockPool::reconstruct
    ensures r is Ok, r->Ok_0@ == funcs_text(*self),
@hint start
    proof { assert("\n"@ =~= nl()); }
@loop 0
    invariant vp_all0 == Seq::new(self.0@.len(), |i: int| &self.0@[i].1), ac@ == prelines(func_lines(*self).take(vp_n0))
@hint before 0
    proof { assert(func_lines(*self).take(0) =~= Seq::empty()); }
@hint loop 0 start
    let ghost before = ac@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { prelines_step(func_lines(*self), n0); assert(ac@ =~= before + nl() + func_lines(*self)[n0]); }
@hint after 0
    proof { assert(func_lines(*self).take(vp_n0) =~= func_lines(*self)); }
@fn parser::logic::event::EventPool::parse
    ensures r is Ok <==> one(events_run(lines($1@))) is Some, r matches Ok(x) ==> one(events_run(lines($1@))) == Some(x),
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); }
@fn parser::logic::event::EventPool::parse_iter
    requires old($1).steps() + old($1).rem().len() < u32::MAX
    ensures
        r is Ok <==> events_run(texts(old($1).rem())) is Some,
        r matches Ok(x) ==> events_run(texts(old($1).rem())) == Some((x, texts(final($1).rem()))),
        final($1).steps() + final($1).rem().len() <= old($1).steps() + old($1).rem().len() + (if final($1).rem().len() == 0 { 1int } else { 0 }),
        final($1).rem().len() <= old($1).rem().len(),
@hint start
    let ghost mut xs = Seq::<PEvent>::empty();
    proof { broadcast use vp_maps;  }
@loop 0
    invariant pool_run(texts($1.rem()), xs, rd_json::<PEvent>()) == pool_run(texts(vp_all0), Seq::empty(), rd_json::<PEvent>()), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len(), vp_i0 <= vp_n0, vp_all0.len() < u32::MAX, vp_all0 == old($1).rem(), result@ == xs
    ensures pool_run(texts(vp_all0), Seq::empty(), rd_json::<PEvent>()) == Some((xs, texts($1.rem()))), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len() + (if $1.rem().len() == 0 { 1int } else { 0 }), result@ == xs
@hint loop 0 start
    proof { assert(texts(vp_all0.skip(vp_n0 - 1)).skip(1) =~= texts(vp_all0.skip(vp_n0))); assert(vp_all0.skip(vp_n0 - 1)[0] == vp_x0); assert(texts(vp_all0.skip(vp_n0 - 1))[0] == vp_x0@); if vp_x0@.len() == 0 { assert(vp_x0@ =~= ""@); } }
@hint loop 0 end
    proof { let x = (rd_json::<PEvent>())(vp_x0@)->0; xs = xs.push(x); assert(result@ =~= xs); }
@fn parser::logic::event::EventPool::reconstruct
    ensures r is Ok, r->Ok_0@ == events_text(*self),
@hint start
    proof { assert("\n"@ =~= nl()); }
@loop 0
    invariant vp_all0 == refs(self.0@), acc@ == prelines(item_texts(self.0@).take(vp_n0))
@hint before 0
    proof { assert(item_texts(self.0@).take(0) =~= Seq::empty()); }
@hint loop 0 start
    let ghost before = acc@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { prelines_step(item_texts(self.0@), n0); assert(acc@ =~= before + nl() + item_texts(self.0@)[n0]); }
@hint after 0
    proof { assert(item_texts(self.0@).take(vp_n0) =~= item_texts(self.0@)); }
@fn parser::logic::component::ComponentPool::parse
    ensures r is Ok <==> one(comps_run(lines($1@))) is Some, r matches Ok(x) ==> one(comps_run(lines($1@))) == Some(x),
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); }
@fn parser::logic::component::ComponentPool::parse_iter
    requires old($1).steps() + old($1).rem().len() < u32::MAX
    ensures
        r is Ok <==> comps_run(texts(old($1).rem())) is Some,
        r matches Ok(x) ==> comps_run(texts(old($1).rem())) == Some((x, texts(final($1).rem()))),
        final($1).steps() + final($1).rem().len() <= old($1).steps() + old($1).rem().len() + (if final($1).rem().len() == 0 { 1int } else { 0 }),
        final($1).rem().len() <= old($1).rem().len(),
@hint start
    let ghost mut xs = Seq::<Component>::empty();
    proof { broadcast use vp_maps;  }
@loop 0
    invariant pool_run(texts($1.rem()), xs, rd_json::<Component>()) == pool_run(texts(vp_all0), Seq::empty(), rd_json::<Component>()), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len(), vp_i0 <= vp_n0, vp_all0.len() < u32::MAX, vp_all0 == old($1).rem(), result@ == xs
    ensures pool_run(texts(vp_all0), Seq::empty(), rd_json::<Component>()) == Some((xs, texts($1.rem()))), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len() + (if $1.rem().len() == 0 { 1int } else { 0 }), result@ == xs
@hint loop 0 start
    proof { assert(texts(vp_all0.skip(vp_n0 - 1)).skip(1) =~= texts(vp_all0.skip(vp_n0))); assert(vp_all0.skip(vp_n0 - 1)[0] == vp_x0); assert(texts(vp_all0.skip(vp_n0 - 1))[0] == vp_x0@); if vp_x0@.len() == 0 { assert(vp_x0@ =~= ""@); } }
@hint loop 0 end
    proof { let x = (rd_json::<Component>())(vp_x0@)->0; xs = xs.push(x); assert(result@ =~= xs); }
@fn parser::logic::component::ComponentPool::reconstruct
    ensures r is Ok, r->Ok_0@ == comps_text(*self),
@loop 0
    invariant vp_all0 == refs(self.0@), result@ == unlines(item_texts(self.0@.take(vp_n0))), vp_i0 == vp_n0, self.0.len() == vp_all0.len()
@hint before 0
    proof { assert(item_texts(self.0@.take(0)) =~= Seq::empty()); }
@hint loop 0 start
    let ghost before = result@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { items_step(self.0@, n0); assert(result@ =~= before + item_text(self.0@[n0]) + nl()); }
@hint after 0
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
@fn parser::logic::BlockContainer::parse
    ensures r is Ok <==> one(code_run(lines($1@))) is Some, r matches Ok(x) ==> one(code_run(lines($1@))) == Some(x),
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); }
@fn parser::logic::BlockContainer::parse_iter
    requires old($1).steps() + old($1).rem().len() < u32::MAX
    ensures
        r is Ok <==> code_run(texts(old($1).rem())) is Some,
        r matches Ok(x) ==> code_run(texts(old($1).rem())) == Some((x, texts(final($1).rem()))),
        final($1).steps() + final($1).rem().len() <= old($1).steps() + old($1).rem().len() + (if final($1).rem().len() == 0 { 1int } else { 0 }),
        final($1).rem().len() <= old($1).rem().len(),
@hint start
    let ghost mut xs = Seq::<Block>::empty();
    proof { broadcast use vp_maps;  }
@loop 0
    invariant pool_run(texts($1.rem()), xs, rd_json::<Block>()) == pool_run(texts(vp_all0), Seq::empty(), rd_json::<Block>()), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len(), vp_i0 <= vp_n0, vp_all0.len() < u32::MAX, vp_all0 == old($1).rem(), result@ == xs
    ensures pool_run(texts(vp_all0), Seq::empty(), rd_json::<Block>()) == Some((xs, texts($1.rem()))), $1.steps() + $1.rem().len() <= old($1).steps() + old($1).rem().len() + (if $1.rem().len() == 0 { 1int } else { 0 }), result@ == xs
@hint loop 0 start
    proof { assert(texts(vp_all0.skip(vp_n0 - 1)).skip(1) =~= texts(vp_all0.skip(vp_n0))); assert(vp_all0.skip(vp_n0 - 1)[0] == vp_x0); assert(texts(vp_all0.skip(vp_n0 - 1))[0] == vp_x0@); if vp_x0@.len() == 0 { assert(vp_x0@ =~= ""@); } }
@hint loop 0 end
    proof { let x = (rd_json::<Block>())(vp_x0@)->0; xs = xs.push(x); assert(result@ =~= xs); }
@fn parser::logic::BlockContainer::reconstruct
    ensures r is Ok, r->Ok_0@ == code_text(*self),
@loop 0
    invariant vp_all0 == refs(self.0@), result@ == unlines(item_texts(self.0@.take(vp_n0))), vp_i0 == vp_n0, self.0.len() == vp_all0.len()
@hint before 0
    proof { assert(item_texts(self.0@.take(0)) =~= Seq::empty()); }
@hint loop 0 start
    let ghost before = result@; let ghost n0 = vp_n0 - 1;
@hint loop 0 end
    proof { items_step(self.0@, n0); assert(result@ =~= before + item_text(self.0@[n0]) + nl()); }
@hint after 0
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
@fn parser::logic::BlockContainerHeader::parse
    ensures r is Ok <==> head_read($1@) is Some, r matches Ok(x) ==> head_read($1@) == Some((x.screen_name, x.container_name)),
@hint start
    proof { head_part($1@); }
@fn parser::logic::BlockContainerHeader::reconstruct
    ensures r is Ok, r->Ok_0@ == "@"@ + self.screen_name@ + ".java_"@ + self.container_name@,
@fn parser::logic::Logic::parse
    ensures r is Ok <==> logic_read($1@) is Some, r matches Ok(x) ==> logic_read($1@) == Some(x),
@hint start
    proof { broadcast use vp_maps; assert("\n"@ =~= nl()); }
    let ghost all0 = split($1@, nl());
    let ghost mut cur = split($1@, nl());
@loop 0
    invariant cur == texts(lines.rem()), logic_run(texts(lines.rem()), screens@) == logic_run(all0, Seq::empty()), line_counter + lines.rem().len() <= u32::MAX - 4
    ensures logic_run(all0, Seq::empty()) == Some(screens@)
    decreases lines.rem().len()
@hint loop 0 start
    let ghost before = cur; let ghost st = screens@;
    proof { if before.len() > 0 { assert(before.skip(1) =~= texts(lines.rem().skip(1))); assert(before[0] == lines.rem()[0]@); } }
@hint loop 0 end
    proof {
        let l = before[0].skip(1);
        assert(before[0] == line@);
        let q = sec_read(before)->0;
        assert(texts(lines.rem()) == q.1);
        assert(screens@ == put_sec(st, q.0));
        cur = texts(lines.rem());
    }
@fn parser::logic::Logic::reconstruct
@rlimit 100
@spinoff
    ensures r is Ok <==> logic_text(*self) is Some, r matches Ok(x) ==> logic_text(*self) == Some(x@),
@hint start
    proof { reveal_strlit("\n"); reveal_strlit("@"); reveal_strlit("\n\n"); reveal_strlit(".java_"); assert("\n\n"@ =~= nl() + nl()); assert("\n"@ =~= nl()); assert("@"@ =~= seq!['@']); assert(self.screens@.take(0) =~= Seq::empty()); }
    let ghost mut all: Seq<String> = Seq::empty();
@loop 0
    invariant vp_all0 == Seq::new(self.screens@.len(), |i: int| &self.screens@[i].1),
    invariant strs(variable_containers@) == sect(self.screens@.take(vp_n0), 0), strs(list_variable_containers@) == sect(self.screens@.take(vp_n0), 1), strs(component_containers@) == sect(self.screens@.take(vp_n0), 2),
    invariant strs(event_containers@) == sect(self.screens@.take(vp_n0), 3), strs(more_block_containers@) == sect(self.screens@.take(vp_n0), 4), strs(block_containers@) == sect(self.screens@.take(vp_n0), 5),
@hint loop 0 start
    let ghost n0 = vp_n0 - 1;
    let ghost (o0, o1, o2, o3, o4, o5) = (variable_containers@, list_variable_containers@, component_containers@, event_containers@, more_block_containers@, block_containers@);
    proof { assert(self.screens@.take(n0 + 1).drop_last() =~= self.screens@.take(n0)); assert(self.screens@.take(n0 + 1).last() == self.screens@[n0]); assert(vp_all0[n0] == &self.screens@[n0].1); assert(self.screens@[n0].1.block_containers@.take(0) =~= Seq::empty()); }
@loop 1
    invariant vp_all1 == Seq::new(screen.block_containers@.len(), |i: int| (&screen.block_containers@[i].0, &screen.block_containers@[i].1)), result@ == code_texts(screen.name@, screen.block_containers@.take(vp_n1)),
@hint loop 1 start
    let ghost n1 = vp_n1 - 1; let ghost before = result@;
    proof { assert(screen.block_containers@.take(n1 + 1).drop_last() =~= screen.block_containers@.take(n1)); assert(screen.block_containers@.take(n1 + 1).last() == screen.block_containers@[n1]); }
@hint loop 1 end
    proof { assert(result@ =~= before + "@"@ + screen.name@ + ".java_"@ + screen.block_containers@[n1].0@ + nl() + code_text(screen.block_containers@[n1].1) + nl()); }
@hint after 1
    proof { assert(screen.block_containers@.take(screen.block_containers@.len() as int) =~= screen.block_containers@); }
@hint loop 0 end
    proof {
        assert(strs(variable_containers@) =~= strs(o0) + own_text(*screen, 0));
        assert(strs(list_variable_containers@) =~= strs(o1) + own_text(*screen, 1));
        assert(strs(component_containers@) =~= strs(o2) + own_text(*screen, 2));
        assert(strs(event_containers@) =~= strs(o3) + own_text(*screen, 3));
        assert(strs(more_block_containers@) =~= strs(o4) + own_text(*screen, 4));
        assert(strs(block_containers@) =~= strs(o5) + own_text(*screen, 5));
    }
@hint after 0
    proof { all = variable_containers@ + list_variable_containers@ + component_containers@ + event_containers@ + more_block_containers@ + block_containers@;
        assert(self.screens@.take(self.screens@.len() as int) =~= self.screens@);
        assert(strs(all) =~= all_sect(self.screens@));
        assert(all_sect(self.screens@).take(0) =~= Seq::empty());
    }
@loop 2
    invariant vp_all2 == all, strs(all) == all_sect(self.screens@), acc@ == glue(all_sect(self.screens@).take(vp_n2)),
@hint loop 2 start
    let ghost before2 = acc@;
    proof { let t = all_sect(self.screens@); let n = vp_n2 - 1; assert(t.take(n + 1).drop_last() =~= t.take(n)); assert(t.take(n + 1).last() == t[n]); assert(t[n] == strs(all)[n]); }
@hint after 2
    proof { assert(all_sect(self.screens@).take(all_sect(self.screens@).len() as int) =~= all_sect(self.screens@)); }
