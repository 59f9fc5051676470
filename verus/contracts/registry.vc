@fn api::Resources::new_empty
    ensures r.images@.len() == 0, r.sounds@.len() == 0, r.fonts@.len() == 0,
@fn api::Resources::get_resource
    ensures r is Some <==> reg(*self, *$1) is Some, r matches Some(x) ==> reg(*self, *$1) == Some((*x.0, x.1)),
@fn api::Resources::remove_resource
    ensures r == reg(*old(self), *$1), *final(self) == removed(*old(self), *$1),
@hint start
    proof { broadcast use vp_maps; if !in_images(*self, *$1) { lhm_del_none(self.images@, *$1); } if !in_sounds(*self, *$1) { lhm_del_none(self.sounds@, *$1); } if !in_fonts(*self, *$1) { lhm_del_none(self.fonts@, *$1); } }
@fn api::Resources::put_resource
    requires $3 != ResourceType::CustomIcon,
    ensures r is Ok <==> reg(*old(self), $1) is None && there($2), r is Err ==> *final(self) == *old(self), r is Ok ==> *final(self) == added(*old(self), $1, typed($2, $3), $3),
@hint start
    let ghost f0 = $2;
    proof { broadcast use vp_maps; }
@fn api::Resources::get_images
    ensures *r == self.images,
@fn api::Resources::get_sounds
    ensures *r == self.sounds,
@fn api::Resources::get_fonts
    ensures *r == self.fonts,
