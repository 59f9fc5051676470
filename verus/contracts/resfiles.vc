@fn parser::ResourceFiles::try_from
    ensures r is Ok <==> sorted($1@, $1@.len()) is Some, r matches Ok(x) ==> sorted($1@, $1@.len()) == Some(as_sorted(x)),
@hint start
    let ghost l = $1@;
@loop 0
    sorted(l, vp_n0 as nat) == Some(Sorted { icon: custom_icon, images: images@, sounds: sounds@, fonts: fonts@ }),
@loop 0 start
    proof { if sorted(l, vp_n0 as nat) is None { lemma_sorted_none(l, vp_n0 as nat, l.len()); } }
@fn parser::ResourceFiles::into
    ensures listing(self, r@),
@hint start
    let ghost s0 = self;
    let ghost mut a: Seq<ResourceFileWrapper> = Seq::empty(); let ghost mut b = a; let ghost mut c = a;
@hint after 0
    proof { a = vp_all0; }
@hint after 1
    proof { b = vp_all1; }
@hint after 2
    proof { c = vp_all2; }
@hint end
    proof {
        let icon: Seq<ResourceFileWrapper> = match s0.custom_icon { Some(i) => seq![i], None => seq![] };
        let ka = choose|k: Seq<String>| hm_listing(s0.images@, a, k); let kb = choose|k: Seq<String>| hm_listing(s0.sounds@, b, k); let kc = choose|k: Seq<String>| hm_listing(s0.fonts@, c, k);
        assert(vp_end@ =~= icon + a + b + c);
        assert(hm_listing(s0.images@, a, ka) && hm_listing(s0.sounds@, b, kb) && hm_listing(s0.fonts@, c, kc));
    }
@fn parser::ResourceFiles::default
    ensures as_sorted(r) == (Sorted { icon: None, images: Map::empty(), sounds: Map::empty(), fonts: Map::empty() }),
