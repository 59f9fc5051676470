pub use crate::api::screen::{Event, EventType};
pub use crate::api::block::Block as api_Block;
pub use crate::parser::logic::event::Event as Rec;
pub open spec fn kind_no(k: EventType) -> u8 { match k { EventType::ViewEvent { .. } => 1, EventType::ComponentEvent { .. } => 2, EventType::ActivityEvent => 3 } }
pub open spec fn kind_of(e: Rec) -> Option<EventType> {
    if e.event_type == 1 { Some(EventType::ViewEvent { id: e.target_id }) }
    else if e.event_type == 2 { Some(EventType::ComponentEvent { id: e.target_id, component_type: e.target_type }) }
    else if e.event_type == 3 { Some(EventType::ActivityEvent) } else { None }
}
pub open spec fn target_of(k: EventType, name: Seq<char>) -> Seq<char> { match k { EventType::ViewEvent { id } => id@, EventType::ComponentEvent { id, .. } => id@, EventType::ActivityEvent => name } }
pub open spec fn record_of(e: Event) -> Rec {
    Rec { event_name: e.name, event_type: kind_no(e.event_type), target_id: string_of(target_of(e.event_type, e.name@)), target_type: match e.event_type { EventType::ComponentEvent { component_type, .. } => component_type, _ => 0 } }
}
/// the container that holds the code of an event
pub open spec fn container_name(e: Event) -> Seq<char> {
    match e.event_type {
        EventType::ViewEvent { id } => id@ + "_"@ + e.name@,
        EventType::ComponentEvent { id, .. } => id@ + "_"@ + e.name@,
        EventType::ActivityEvent => if e.name@ == "onCreate"@ { "onCreate"@ + "_initializeLogic"@ } else { e.name@ + "_"@ + e.name@ },
    }
}
