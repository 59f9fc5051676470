@fn api::screen::Event::get_block_container_id
    ensures r@ == container_name(*self),
@hint start
    proof { reveal_strlit("onCreate"); reveal_strlit("_initializeLogic"); reveal_strlit("onCreate_initializeLogic"); assert("onCreate"@ + "_initializeLogic"@ =~= "onCreate_initializeLogic"@); }
@fn api::screen::Event::into_parser_event
    ensures r.0 == record_of(self), r.1 == self.code,
@fn api::screen::Event::try_from
    ensures
        r is Ok <==> 1 <= $1.event_type <= 3,
        r matches Ok(e) ==> e.name == $1.event_name && Some(e.event_type) == kind_of($1) && e.code.0@ =~= Seq::<api_Block>::empty(),
@fn api::screen::EventType::from_parser_event
    ensures r is Ok <==> kind_of(*$1) is Some, r matches Ok(k) ==> kind_of(*$1) == Some(k),
@fn api::screen::EventType::apply_to_parser_event
    ensures
        final($1).event_name == old($1).event_name,
        final($1).event_type == kind_no(self),
        final($1).target_id@ == target_of(self, old($1).event_name@),
        final($1).target_type == (match self { EventType::ComponentEvent { component_type, .. } => component_type, _ => old($1).target_type }),
@fn api::block::Blocks::default
    ensures r.0@ =~= Seq::<crate::api::block::Block>::empty(),
