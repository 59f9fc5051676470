@fn api::component::ComponentKind::from_parser_component
    ensures
        r is Ok <==> comp_of(*$1) is Some,
        r matches Ok(k) ==> comp_of(*$1) == Some(k),
@fn api::component::ComponentKind::into_parser_component
    ensures
        r.id == $1,
        r.r#type == comp_no(self),
        takes_param(r.r#type) ==> r.param1@ == comp_param(self),
@fn parser::logic::component::Component::new_empty
    ensures r.id == $1, r.r#type == $2, r.param1@ =~= Seq::<char>::empty(), r.param2@ =~= Seq::<char>::empty(), r.param3@ =~= Seq::<char>::empty(),
@fn parser::logic::component::Component::new_1param
    ensures r.id == $1, r.r#type == $3, r.param1 == $2, r.param2@ =~= Seq::<char>::empty(), r.param3@ =~= Seq::<char>::empty(),
@fn parser::logic::component::Component::new_2params
    ensures r.id == $1, r.r#type == $4, r.param1 == $2, r.param2 == $3, r.param3@ =~= Seq::<char>::empty(),
@fn parser::logic::component::Component::new
    ensures r.id == $1, r.r#type == $5, r.param1 == $2, r.param2 == $3, r.param3 == $4,
