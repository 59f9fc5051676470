/// a screen without any logic
pub open spec fn empty_logic(name: String) -> ScreenLogic { ScreenLogic { name, block_containers: lhm_of(Seq::empty()), variables: None, list_variables: None, components: None, events: None, more_blocks: None } }
