pub use crate::parser::{ResourceFiles, ResourceFileWrapper, ResourceType};
/// where a file goes: the kind and the file name it is kept under
pub open spec fn folder_kind(s: Seq<char>) -> Option<ResourceType> {
    if s == "images"@ { Some(ResourceType::Image) } else if s == "sounds"@ { Some(ResourceType::Sound) } else if s == "fonts"@ { Some(ResourceType::Font) } else if s == "icons"@ { Some(ResourceType::CustomIcon) } else { None }
}
pub open spec fn last_name(p: PathBuf) -> Option<Seq<char>> { match path_last(p) { Some(o) => os_text(o), None => None } }
/// the folder above the folder of the file
pub open spec fn kind_folder(p: PathBuf) -> Option<Seq<char>> { match path_parent(p) { Some(a) => match path_parent(a) { Some(b) => last_name(b), None => None }, None => None } }
pub open spec fn place(f: ResourceFileWrapper) -> Option<(ResourceType, Seq<char>)> {
    match f {
        ResourceFileWrapper::Path(p) => if !path_exists(p) { None } else { match kind_folder(p) { None => None, Some(d) => match last_name(p) { None => None, Some(n) => match folder_kind(d) { Some(k) => Some((k, n)), None => None } } } },
        ResourceFileWrapper::StringId { res_type, res_full_name, .. } => Some((res_type, res_full_name@)),
        ResourceFileWrapper::U32Id { res_type, res_full_name, .. } => Some((res_type, res_full_name@)),
    }
}
pub struct Sorted { pub icon: Option<ResourceFileWrapper>, pub images: Map<String, ResourceFileWrapper>, pub sounds: Map<String, ResourceFileWrapper>, pub fonts: Map<String, ResourceFileWrapper> }
pub open spec fn sort_in(s: Sorted, f: ResourceFileWrapper) -> Option<Sorted> {
    match place(f) {
        None => None,
        Some((ResourceType::Image, n)) => Some(Sorted { images: s.images.insert(string_of(n), f), ..s }),
        Some((ResourceType::Sound, n)) => Some(Sorted { sounds: s.sounds.insert(string_of(n), f), ..s }),
        Some((ResourceType::Font, n)) => Some(Sorted { fonts: s.fonts.insert(string_of(n), f), ..s }),
        Some((ResourceType::CustomIcon, n)) => Some(Sorted { icon: Some(f), ..s }),
    }
}
pub open spec fn sorted(l: Seq<ResourceFileWrapper>, n: nat) -> Option<Sorted> decreases n {
    if n == 0 { Some(Sorted { icon: None, images: Map::empty(), sounds: Map::empty(), fonts: Map::empty() }) }
    else { match sorted(l, (n - 1) as nat) { None => None, Some(s) => sort_in(s, l[n - 1]) } }
}
pub open spec fn as_sorted(r: ResourceFiles) -> Sorted { Sorted { icon: r.custom_icon, images: r.images@, sounds: r.sounds@, fonts: r.fonts@ } }
pub proof fn lemma_sorted_none(l: Seq<ResourceFileWrapper>, i: nat, n: nat) requires i <= n, sorted(l, i) is None ensures sorted(l, n) is None decreases n { if i < n { lemma_sorted_none(l, i, (n - 1) as nat); } }
/// the list of a collection: the icon, then the images, sounds and fonts, each in some order
pub open spec fn listing(r: ResourceFiles, l: Seq<ResourceFileWrapper>) -> bool {
    exists|a: Seq<ResourceFileWrapper>, b: Seq<ResourceFileWrapper>, c: Seq<ResourceFileWrapper>, ka: Seq<String>, kb: Seq<String>, kc: Seq<String>|
        l == (match r.custom_icon { Some(i) => seq![i], None => seq![] }) + a + b + c && hm_listing(r.images@, a, ka) && hm_listing(r.sounds@, b, kb) && hm_listing(r.fonts@, c, kc)
}
/// nothing is lost or mixed: every file of a list is in the collection (under its name in its kind), unless a later one took its place
pub open spec fn slot(f: ResourceFileWrapper, g: ResourceFileWrapper) -> bool { match (place(f), place(g)) { (Some((k, n)), Some((j, m))) => k == j && (k == ResourceType::CustomIcon || n == m), _ => false } }
pub open spec fn held(s: Sorted, f: ResourceFileWrapper) -> bool {
    match place(f) {
        None => false,
        Some((ResourceType::Image, n)) => s.images.dom().contains(string_of(n)) && s.images[string_of(n)] == f,
        Some((ResourceType::Sound, n)) => s.sounds.dom().contains(string_of(n)) && s.sounds[string_of(n)] == f,
        Some((ResourceType::Font, n)) => s.fonts.dom().contains(string_of(n)) && s.fonts[string_of(n)] == f,
        Some((ResourceType::CustomIcon, n)) => s.icon == Some(f),
    }
}
pub proof fn c24_all_held(l: Seq<ResourceFileWrapper>, n: nat, i: int)
    requires n <= l.len(), 0 <= i < n, sorted(l, n) is Some, forall|j: int| i < j < n ==> !slot(l[i], #[trigger] l[j])
    ensures held(sorted(l, n)->0, l[i])
    decreases n
{
    broadcast use vp_views;
    if i < n - 1 {
        c24_all_held(l, (n - 1) as nat, i);
        assert(!slot(l[i], l[n - 1]));
        let (a, b) = (place(l[i])->0, place(l[n - 1])->0);
        if a.0 == b.0 && a.0 != ResourceType::CustomIcon { assert(string_of(a.1)@ == a.1); assert(string_of(b.1)@ == b.1); }
    }
}
/// and everything in the collection comes from the list and is of that kind and name
pub open spec fn given(l: Seq<ResourceFileWrapper>, f: ResourceFileWrapper, t: ResourceType, k: Seq<char>) -> bool { l.contains(f) && (place(f) matches Some((j, m)) && j == t && (t == ResourceType::CustomIcon || m == k)) }
pub proof fn c24_only_given(l: Seq<ResourceFileWrapper>, n: nat, k: String)
    requires n <= l.len(), sorted(l, n) is Some
    ensures
        sorted(l, n)->0.images.dom().contains(k) ==> given(l, sorted(l, n)->0.images[k], ResourceType::Image, k@),
        sorted(l, n)->0.sounds.dom().contains(k) ==> given(l, sorted(l, n)->0.sounds[k], ResourceType::Sound, k@),
        sorted(l, n)->0.fonts.dom().contains(k) ==> given(l, sorted(l, n)->0.fonts[k], ResourceType::Font, k@),
        sorted(l, n)->0.icon matches Some(f) ==> given(l, f, ResourceType::CustomIcon, k@),
    decreases n
{
    broadcast use vp_views;
    if n > 0 {
        c24_only_given(l, (n - 1) as nat, k);
        assert(l.contains(l[n - 1]));
    }
}
pub proof fn lemma_all_placed(l: Seq<ResourceFileWrapper>, n: nat)
    requires n <= l.len(), forall|i: int| 0 <= i < n ==> place(#[trigger] l[i]) is Some
    ensures sorted(l, n) is Some
    decreases n
{ if n > 0 { lemma_all_placed(l, (n - 1) as nat); assert(place(l[n - 1]) is Some); } }
/// every file of a collection is kept under its own kind and name
pub open spec fn named(m: Map<String, ResourceFileWrapper>, t: ResourceType) -> bool { forall|k: String| #[trigger] m.dom().contains(k) ==> place(m[k]) == Some((t, k@)) }
pub open spec fn filed(r: ResourceFiles) -> bool { named(r.images@, ResourceType::Image) && named(r.sounds@, ResourceType::Sound) && named(r.fonts@, ResourceType::Font) && (r.custom_icon matches Some(f) ==> place(f) matches Some((t, _)) && t == ResourceType::CustomIcon) }
pub proof fn lemma_listed(m: Map<String, ResourceFileWrapper>, t: ResourceType, a: Seq<ResourceFileWrapper>, ka: Seq<String>)
    requires hm_listing(m, a, ka), named(m, t), t != ResourceType::CustomIcon
    ensures
        forall|i: int| 0 <= i < a.len() ==> m.dom().contains(ka[i]) && place(#[trigger] a[i]) == Some((t, ka[i]@)) && a[i] == m[ka[i]],
        forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> !slot(#[trigger] a[i], #[trigger] a[j]),
        forall|k: String| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < a.len() && ka[i] == k && #[trigger] a[i] == m[k],
{
    broadcast use vp_views;
    assert forall|i: int| 0 <= i < a.len() implies m.dom().contains(ka[i]) && place(#[trigger] a[i]) == Some((t, ka[i]@)) && a[i] == m[ka[i]] by { assert(a[i] == m[ka[i]]); assert(ka.contains(ka[i])); assert(ka.to_set().contains(ka[i])); }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies !slot(#[trigger] a[i], #[trigger] a[j]) by { assert(ka[i] != ka[j]); assert(string_of(ka[i]@) == ka[i]); assert(string_of(ka[j]@) == ka[j]); }
    assert forall|k: String| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < a.len() && ka[i] == k && #[trigger] a[i] == m[k] by { assert(ka.to_set().contains(k)); let i = ka.index_of(k); assert(ka[i] == k); assert(a[i] == m[ka[i]]); }
}
pub open spec fn pl_name(f: ResourceFileWrapper) -> Seq<char> { (place(f)->0).1 }
pub open spec fn sits(l: Seq<ResourceFileWrapper>, i: int, t: ResourceType) -> bool { place(l[i]) matches Some((k, _)) && k == t }
pub proof fn lemma_one_kind(l: Seq<ResourceFileWrapper>, off: int, a: Seq<ResourceFileWrapper>, ka: Seq<String>, m: Map<String, ResourceFileWrapper>, sm: Map<String, ResourceFileWrapper>, t: ResourceType)
    requires
        hm_listing(m, a, ka), named(m, t), t != ResourceType::CustomIcon, 0 <= off, off + a.len() <= l.len(), a == l.subrange(off, off + a.len()),
        forall|i: int| 0 <= i < l.len() && #[trigger] sits(l, i, t) ==> off <= i < off + a.len(),
        forall|i: int| 0 <= i < l.len() && #[trigger] sits(l, i, t) ==> sm.dom().contains(string_of(pl_name(l[i]))) && sm[string_of(pl_name(l[i]))] == l[i],
        forall|k: String| #[trigger] sm.dom().contains(k) ==> given(l, sm[k], t, k@),
    ensures sm == m
{
    broadcast use vp_views;
    lemma_listed(m, t, a, ka);
    assert forall|k: String| #[trigger] m.dom().contains(k) implies sm.dom().contains(k) && sm[k] == m[k] by {
        let i = choose|i: int| 0 <= i < a.len() && ka[i] == k && #[trigger] a[i] == m[k];
        assert(l[i + off] == a[i]); assert(sits(l, i + off, t)); assert(string_of(k@) == k);
    }
    assert forall|k: String| #[trigger] sm.dom().contains(k) implies m.dom().contains(k) by {
        let f = sm[k]; let i = l.index_of(f);
        assert(l[i] == f); assert(sits(l, i, t)); assert(a[i - off] == f); assert(string_of(ka[i - off]@) == ka[i - off]); assert(string_of(k@) == k);
    }
    assert(sm =~= m);
}
/// a collection turned into a list and collected again is the same collection
pub proof fn c24_back(r: ResourceFiles, l: Seq<ResourceFileWrapper>)
    requires filed(r), listing(r, l)
    ensures sorted(l, l.len()) == Some(as_sorted(r))
{
    broadcast use vp_views;
    let (a, b, c, ka, kb, kc) = choose|a: Seq<ResourceFileWrapper>, b: Seq<ResourceFileWrapper>, c: Seq<ResourceFileWrapper>, ka: Seq<String>, kb: Seq<String>, kc: Seq<String>|
        l == (match r.custom_icon { Some(i) => seq![i], None => seq![] }) + a + b + c && hm_listing(r.images@, a, ka) && hm_listing(r.sounds@, b, kb) && hm_listing(r.fonts@, c, kc);
    let ic: Seq<ResourceFileWrapper> = match r.custom_icon { Some(i) => seq![i], None => seq![] };
    lemma_listed(r.images@, ResourceType::Image, a, ka); lemma_listed(r.sounds@, ResourceType::Sound, b, kb); lemma_listed(r.fonts@, ResourceType::Font, c, kc);
    let (n1, n2, n3) = (ic.len() as int, (ic.len() + a.len()) as int, (ic.len() + a.len() + b.len()) as int);
    assert forall|i: int| 0 <= i < l.len() implies place(#[trigger] l[i]) is Some && l[i] == (if i < n1 { ic[i] } else if i < n2 { a[i - n1] } else if i < n3 { b[i - n2] } else { c[i - n3] }) by {}
    lemma_all_placed(l, l.len());
    let s = sorted(l, l.len())->0;
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !slot(#[trigger] l[i], #[trigger] l[j]) by {
        let (x, y) = (place(l[i])->0, place(l[j])->0);
        if i < n1 {} else if i < n2 { if j < n2 { assert(!slot(a[i - n1], a[j - n1])); } } else if i < n3 { if j < n3 { assert(!slot(b[i - n2], b[j - n2])); } } else { assert(!slot(c[i - n3], c[j - n3])); }
    }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] held(s, l[i]) by { c24_all_held(l, l.len(), i); }
    assert forall|k: String| #[trigger] s.images.dom().contains(k) implies given(l, s.images[k], ResourceType::Image, k@) by { c24_only_given(l, l.len(), k); }
    assert forall|k: String| #[trigger] s.sounds.dom().contains(k) implies given(l, s.sounds[k], ResourceType::Sound, k@) by { c24_only_given(l, l.len(), k); }
    assert forall|k: String| #[trigger] s.fonts.dom().contains(k) implies given(l, s.fonts[k], ResourceType::Font, k@) by { c24_only_given(l, l.len(), k); }
    assert forall|i: int| 0 <= i < l.len() implies place(#[trigger] l[i]) is Some && (place(l[i])->0).0 == (if i < n1 { ResourceType::CustomIcon } else if i < n2 { ResourceType::Image } else if i < n3 { ResourceType::Sound } else { ResourceType::Font }) by { assert(place(l[i]) is Some); }
    assert(a =~= l.subrange(n1, n2)); assert(b =~= l.subrange(n2, n3)); assert(c =~= l.subrange(n3, l.len() as int));
    assert forall|i: int| 0 <= i < l.len() && #[trigger] sits(l, i, ResourceType::Image) implies n1 <= i < n2 && s.images.dom().contains(string_of(pl_name(l[i]))) && s.images[string_of(pl_name(l[i]))] == l[i] by { assert(held(s, l[i])); assert(place(l[i]) is Some); }
    assert forall|i: int| 0 <= i < l.len() && #[trigger] sits(l, i, ResourceType::Sound) implies n2 <= i < n3 && s.sounds.dom().contains(string_of(pl_name(l[i]))) && s.sounds[string_of(pl_name(l[i]))] == l[i] by { assert(held(s, l[i])); assert(place(l[i]) is Some); }
    assert forall|i: int| 0 <= i < l.len() && #[trigger] sits(l, i, ResourceType::Font) implies n3 <= i && s.fonts.dom().contains(string_of(pl_name(l[i]))) && s.fonts[string_of(pl_name(l[i]))] == l[i] by { assert(held(s, l[i])); assert(place(l[i]) is Some); }
    lemma_one_kind(l, n1, a, ka, r.images@, s.images, ResourceType::Image);
    lemma_one_kind(l, n2, b, kb, r.sounds@, s.sounds, ResourceType::Sound);
    lemma_one_kind(l, n3, c, kc, r.fonts@, s.fonts, ResourceType::Font);
    c24_only_given(l, l.len(), string_of(seq![]));
    if r.custom_icon is Some { assert(l[0] == r.custom_icon->0); assert(held(s, l[0])); }
    if s.icon is Some { let f = s.icon->0; let i = l.index_of(f); assert(l[i] == f); assert(place(l[i]) is Some); assert(i < n1); }
    assert(s.icon == r.custom_icon);
}
