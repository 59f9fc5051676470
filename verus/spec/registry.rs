pub use crate::api::{Resources, ResourceId};
pub use crate::parser::{ResourceFileWrapper, ResourceType};
/// the one map the registry stands for: an id names an image, a sound or a font
pub open spec fn reg(r: Resources, id: ResourceId) -> Option<(ResourceFileWrapper, ResourceType)> {
    match lhm_get(r.images@, id) { Some(f) => Some((f, ResourceType::Image)), None =>
    match lhm_get(r.sounds@, id) { Some(f) => Some((f, ResourceType::Sound)), None =>
    match lhm_get(r.fonts@, id) { Some(f) => Some((f, ResourceType::Font)), None => None } } }
}
pub open spec fn in_images(r: Resources, id: ResourceId) -> bool { lhm_get(r.images@, id) is Some }
pub open spec fn in_sounds(r: Resources, id: ResourceId) -> bool { lhm_get(r.sounds@, id) is Some }
pub open spec fn in_fonts(r: Resources, id: ResourceId) -> bool { lhm_get(r.fonts@, id) is Some }
/// no id is registered twice
pub open spec fn once(r: Resources, id: ResourceId) -> bool { !(in_images(r, id) && in_sounds(r, id)) && !(in_images(r, id) && in_fonts(r, id)) && !(in_sounds(r, id) && in_fonts(r, id)) }
pub open spec fn reg_ok(r: Resources) -> bool { forall|id: ResourceId| #[trigger] once(r, id) }
/// a file as it is registered: imaginary files take the type they are registered under
pub open spec fn typed(f: ResourceFileWrapper, t: ResourceType) -> ResourceFileWrapper {
    match f {
        ResourceFileWrapper::Path(p) => f,
        ResourceFileWrapper::StringId { id, res_full_name, .. } => ResourceFileWrapper::StringId { id, res_full_name, res_type: t },
        ResourceFileWrapper::U32Id { id, res_full_name, .. } => ResourceFileWrapper::U32Id { id, res_full_name, res_type: t },
    }
}
pub open spec fn there(f: ResourceFileWrapper) -> bool { f matches ResourceFileWrapper::Path(p) ==> path_exists(p) }
pub open spec fn removed(a: Resources, id: ResourceId) -> Resources {
    if in_images(a, id) { Resources { images: lhm_of(lhm_del(a.images@, id)), ..a } }
    else if in_sounds(a, id) { Resources { sounds: lhm_of(lhm_del(a.sounds@, id)), ..a } }
    else { Resources { fonts: lhm_of(lhm_del(a.fonts@, id)), ..a } }
}
pub open spec fn added(a: Resources, id: ResourceId, f: ResourceFileWrapper, t: ResourceType) -> Resources {
    match t {
        ResourceType::Image => Resources { images: lhm_of(lhm_put(a.images@, id, f)), ..a },
        ResourceType::Sound => Resources { sounds: lhm_of(lhm_put(a.sounds@, id, f)), ..a },
        ResourceType::Font => Resources { fonts: lhm_of(lhm_put(a.fonts@, id, f)), ..a },
        ResourceType::CustomIcon => a,
    }
}
/// removing: the entry is gone, every other entry stays
pub proof fn c23_remove(a: Resources, id: ResourceId)
    requires reg_ok(a)
    ensures reg_ok(removed(a, id)), reg(removed(a, id), id) is None, forall|j: ResourceId| j != id ==> #[trigger] reg(removed(a, id), j) == reg(a, j)
{
    broadcast use vp_maps;
    let b = removed(a, id);
    lhm_get_del(a.images@, id, id); lhm_get_del(a.sounds@, id, id); lhm_get_del(a.fonts@, id, id);
    assert(once(a, id));
    assert forall|j: ResourceId| #![trigger once(b, j)] #![trigger reg(b, j)] true implies once(b, j) && (j != id ==> reg(b, j) == reg(a, j)) by {
        lhm_get_del(a.images@, id, j); lhm_get_del(a.sounds@, id, j); lhm_get_del(a.fonts@, id, j);
        assert(once(a, j));
    }
}
/// adding under a free id: found under that id with the type, every other entry stays
pub proof fn c23_put(a: Resources, id: ResourceId, f: ResourceFileWrapper, t: ResourceType)
    requires reg_ok(a), reg(a, id) is None, t != ResourceType::CustomIcon
    ensures reg_ok(added(a, id, f, t)), reg(added(a, id, f, t), id) == Some((f, t)), forall|j: ResourceId| j != id ==> #[trigger] reg(added(a, id, f, t), j) == reg(a, j)
{
    broadcast use vp_maps;
    let b = added(a, id, f, t);
    assert forall|j: ResourceId| #![trigger once(b, j)] #![trigger reg(b, j)] true implies reg(b, j) == (if j == id { Some((f, t)) } else { reg(a, j) }) && once(b, j) by {
        lhm_get_put(a.images@, id, f, j); lhm_get_put(a.sounds@, id, f, j); lhm_get_put(a.fonts@, id, f, j);
        assert(once(a, j)); assert(once(a, id));
    }
}
/// an empty registry is in order
pub proof fn c23_empty(a: Resources) requires a.images@.len() == 0, a.sounds@.len() == 0, a.fonts@.len() == 0 ensures reg_ok(a), forall|j: ResourceId| #[trigger] reg(a, j) is None
{ assert forall|j: ResourceId| #[trigger] reg(a, j) is None by {} }
