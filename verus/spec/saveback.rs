// ---- C22: what is saved opens as what it was
pub open spec fn distinct<K>(ks: Seq<K>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] ks[i] != #[trigger] ks[j] }
pub open spec fn pairs<V>(ks: Seq<String>, vs: Seq<V>, n: nat) -> Seq<(String, V)> { Seq::new(n, |i: int| (ks[i], vs[i])) }
pub proof fn get_none<V>(s: Seq<(String, V)>, k: String) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k ensures lhm_get(s, k) is None { if lhm_get(s, k) is Some { let i = lhm_get_ix(s, k); } }
pub proof fn get_at<K, V>(s: Seq<(K, V)>, i: int) requires lhm_ok(s), 0 <= i < s.len() ensures lhm_get(s, s[i].0) == Some(s[i].1) { lhm_get_some(s, i); let j = lhm_get_ix(s, s[i].0); if i < j { assert(s[i].0 != s[j].0); } else if j < i { assert(s[j].0 != s[i].0); } }
pub proof fn puts_new<V>(base: Seq<(String, V)>, ks: Seq<String>, vs: Seq<V>, n: nat)
    requires lhm_ok(base), n <= ks.len(), n <= vs.len(), distinct(ks, n as int), forall|i: int, j: int| 0 <= i < base.len() && 0 <= j < n ==> (#[trigger] base[i]).0 != #[trigger] ks[j]
    ensures puts(base, ks, vs, n) == base + pairs(ks, vs, n), lhm_ok(base + pairs(ks, vs, n))
    decreases n
{
    if n == 0 { assert(base + pairs(ks, vs, 0) =~= base); }
    else {
        let k = (n - 1) as nat; puts_new(base, ks, vs, k); let b = base + pairs(ks, vs, k); let c = base + pairs(ks, vs, n);
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 != ks[n - 1] by { if i < base.len() { assert(base[i].0 != ks[n - 1]); } else { assert(b[i].0 == ks[i - base.len()]); } }
        get_none(b, ks[n - 1]); lhm_del_none(b, ks[n - 1]);
        assert(b.push((ks[n - 1], vs[n - 1])) =~= c);
        assert(lhm_ok(c)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 != (#[trigger] c[j]).0 by { if j < b.len() { assert(c[i] == b[i] && c[j] == b[j]); } else { assert(c[i] == b[i]); assert(c[j].0 == ks[n - 1]); } } }
    }
}
// -- events
/// a name for every event's code, onCreate only as the screen's own first event
pub open spec fn events_ok(es: Seq<Event>, ms: Seq<(String, AMoreBlock)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> container_name(#[trigger] es[i]) != container_name(#[trigger] es[j])
    &&& forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < ms.len() ==> container_name(#[trigger] es[i]) != (#[trigger] ms[j]).0@ + "_moreBlock"@
    &&& forall|i: int| 0 <= i < es.len() ==> ((#[trigger] es[i]).name@ == "onCreate"@ <==> container_name(es[i]) == oncreate_cont())
    &&& forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]).name@ == "onCreate"@ ==> i == 0 && es[i].event_type is ActivityEvent
    &&& forall|j: int| 0 <= j < ms.len() ==> (#[trigger] ms[j]).0@ + "_moreBlock"@ != oncreate_cont()
}
/// code that comes back as it was written
pub open spec fn code_back(b: Blocks) -> bool { blocks_of(w_seq(b.0, b.0@.len(), 10)) == Some(b) }
pub open spec fn mbs_ok(ms: Seq<(String, AMoreBlock)>) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).1.name == ms[i].0 && content_of(content_text(ms[i].1.spec)) == Some(ms[i].1.spec) && code_back(ms[i].1.code) }
pub proof fn rec_back(e: Event, b: Blocks) ensures kind_of(record_of(e)) == Some(e.event_type), event_of(record_of(e), b) == (Event { code: b, ..e }), container_name(event_of(record_of(e), b)) == container_name(e) { broadcast use vp_views; }
pub proof fn recs_len(es: Seq<Event>, n: nat) ensures recs_saved(es, n).len() <= n decreases n { if n > 0 { recs_len(es, (n - 1) as nat); } }
pub proof fn recs_are(es: Seq<Event>, n: nat, k: int)
    requires n <= es.len(), 0 <= k <= 1, k <= n, k == 1 ==> es[0].name@ == "onCreate"@, forall|i: int| k <= i < n ==> (#[trigger] es[i]).name@ != "onCreate"@
    ensures recs_saved(es, n) == Seq::new((n - k) as nat, |i: int| record_of(es[k + i]))
    decreases n
{
    reveal_with_fuel(recs_saved, 2);
    if n == k { assert(recs_saved(es, n) =~= Seq::new((n - k) as nat, |i: int| record_of(es[k + i]))); }
    else { recs_are(es, (n - 1) as nat, k); assert(recs_saved(es, n) =~= Seq::new((n - k) as nat, |i: int| record_of(es[k + i]))); }
}
pub open spec fn cont_keys(es: Seq<Event>, ms: Seq<(String, AMoreBlock)>) -> Seq<(String, BlockContainer)> { pairs(ev_keys(es), ev_conts(es), es.len()) + pairs(mb_keys(ms), mb_conts(ms), ms.len()) }
pub proof fn more_name(a: String, b: String) requires mb_key(a) == mb_key(b) ensures a == b
{ broadcast use vp_views; let x = a@ + "_moreBlock"@; let y = b@ + "_moreBlock"@; assert(x == y); assert(a@.len() == b@.len()); assert(x.take(a@.len() as int) =~= a@); assert(y.take(b@.len() as int) =~= b@); assert(a@ == b@); }
/// the containers of a screen: each under its own name
pub proof fn conts_are(es: Seq<Event>, ms: Seq<(String, AMoreBlock)>)
    requires events_ok(es, ms), lhm_ok(ms)
    ensures conts_saved(es, ms) == cont_keys(es, ms), lhm_ok(cont_keys(es, ms)),
        forall|i: int| 0 <= i < es.len() ==> lhm_get(conts_saved(es, ms), string_of(container_name(#[trigger] es[i]))) == Some(cont_of(es[i].code)),
        forall|i: int| 0 <= i < ms.len() ==> lhm_get(conts_saved(es, ms), mb_key((#[trigger] ms[i]).0)) == Some(cont_of(ms[i].1.code)),
        lhm_get(conts_saved(es, ms), string_of(oncreate_cont())) is Some <==> es.len() > 0 && es[0].name@ == "onCreate"@,
{
    broadcast use vp_views;
    let (ek, mk) = (ev_keys(es), mb_keys(ms)); let e = Seq::<(String, BlockContainer)>::empty();
    assert(distinct(ek, es.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < es.len() implies #[trigger] ek[i] != #[trigger] ek[j] by { assert(container_name(es[i]) != container_name(es[j])); assert(ek[i]@ == container_name(es[i])); assert(ek[j]@ == container_name(es[j])); } }
    puts_new(e, ek, ev_conts(es), es.len());
    let b = e + pairs(ek, ev_conts(es), es.len()); assert(b =~= pairs(ek, ev_conts(es), es.len()));
    assert(distinct(mk, ms.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < ms.len() implies #[trigger] mk[i] != #[trigger] mk[j] by { assert(ms[i].0 != ms[j].0); if mk[i] == mk[j] { more_name(ms[i].0, ms[j].0); } } }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < ms.len() implies (#[trigger] b[i]).0 != #[trigger] mk[j] by { assert(b[i].0@ == container_name(es[i])); assert(mk[j]@ == ms[j].0@ + "_moreBlock"@); }
    puts_new(b, mk, mb_conts(ms), ms.len());
    let c = cont_keys(es, ms);
    assert forall|i: int| 0 <= i < es.len() implies lhm_get(c, string_of(container_name(#[trigger] es[i]))) == Some(cont_of(es[i].code)) by { assert(c[i] == (ek[i], ev_conts(es)[i])); get_at(c, i); }
    assert forall|i: int| 0 <= i < ms.len() implies lhm_get(c, mb_key((#[trigger] ms[i]).0)) == Some(cont_of(ms[i].1.code)) by { assert(c[es.len() + i] == (mk[i], mb_conts(ms)[i])); get_at(c, es.len() + i); }
    let o = string_of(oncreate_cont());
    if es.len() > 0 && es[0].name@ == "onCreate"@ { assert(container_name(es[0]) == oncreate_cont()); }
    else {
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).0 != o by {
            if i < es.len() { assert(c[i].0@ == container_name(es[i])); assert(es[i].name@ != "onCreate"@); } else { let j = i - es.len(); assert(c[i].0@ == ms[j].0@ + "_moreBlock"@); }
        }
        get_none(c, o);
    }
}
/// the event records as they are read
pub proof fn recs_back(es: Seq<Event>, ms: Seq<(String, AMoreBlock)>, l: ScreenLogic)
    requires events_ok(es, ms), lhm_ok(ms), l.events matches Some(p) && p.0@ == recs_saved(es, es.len()), l.block_containers@ == conts_saved(es, ms)
    ensures event_recs(l) == Seq::new(es.len(), |i: int| record_of(es[i]))
{
    broadcast use vp_views;
    conts_are(es, ms);
    if es.len() > 0 && es[0].name@ == "onCreate"@ {
        recs_are(es, es.len(), 1);
        assert(es[0].event_type is ActivityEvent); assert(es[0].name == string_of("onCreate"@)); assert(record_of(es[0]) == oncreate());
    } else { recs_are(es, es.len(), 0); }
    assert(event_recs(l) =~= Seq::new(es.len(), |i: int| record_of(es[i])));
}
pub proof fn evs_back(es: Seq<Event>, bc: Conts, n: nat)
    requires n <= es.len(), lhm_ok(bc), forall|i: int, j: int| 0 <= i < j < es.len() ==> container_name(#[trigger] es[i]) != container_name(#[trigger] es[j]),
        forall|i: int| 0 <= i < es.len() ==> code_back((#[trigger] es[i]).code) && lhm_get(bc, string_of(container_name(es[i]))) == Some(cont_of(es[i].code))
    ensures evs_of(Seq::new(es.len(), |i: int| record_of(es[i])), bc, n) matches Some(p) && p.0 == es.take(n as int) && lhm_ok(p.1) && forall|i: int| n <= i < es.len() ==> lhm_get(p.1, string_of(container_name(#[trigger] es[i]))) == lhm_get(bc, string_of(container_name(es[i])))
    decreases n
{
    broadcast use vp_views;
    let l = Seq::new(es.len(), |i: int| record_of(es[i]));
    if n == 0 { assert(es.take(0) =~= Seq::empty()); }
    else {
        evs_back(es, bc, (n - 1) as nat);
        let p = evs_of(l, bc, (n - 1) as nat)->0; let e = es[n - 1]; let cn = string_of(container_name(e));
        rec_back(e, no_code()); rec_back(e, e.code);
        assert(vec_of(cont_of(e.code).0@) == cont_of(e.code).0);
        assert(code_of(p.1, container_name(e)) == Some(e.code));
        lhm_get_del(p.1, cn, cn);
        assert forall|i: int| n <= i < es.len() implies lhm_get(lhm_del(p.1, cn), string_of(container_name(#[trigger] es[i]))) == lhm_get(bc, string_of(container_name(es[i]))) by { let k = string_of(container_name(es[i])); lhm_get_del(p.1, cn, k); assert(container_name(es[n - 1]) != container_name(es[i])); assert(k@ == container_name(es[i])); assert(cn@ == container_name(e)); }
        assert(es.take(n as int) =~= es.take(n - 1).push(e));
    }
}
// -- more blocks
pub proof fn mbs_back(ms: Seq<(String, AMoreBlock)>, bc: Conts, n: nat)
    requires n <= ms.len(), lhm_ok(bc), lhm_ok(ms), mbs_ok(ms), forall|i: int| 0 <= i < ms.len() ==> lhm_get(bc, mb_key((#[trigger] ms[i]).0)) == Some(cont_of(ms[i].1.code))
    ensures mbs_of(pairs(mb_ids(ms), mb_recs(ms), ms.len()), bc, n) matches Some(p) && p.0 == ms.take(n as int) && lhm_ok(p.1) && forall|k: String| (forall|i: int| 0 <= i < n ==> mb_key((#[trigger] ms[i]).0) != k) ==> #[trigger] lhm_get(p.1, k) == lhm_get(bc, k)
    decreases n
{
    broadcast use vp_views;
    let l = pairs(mb_ids(ms), mb_recs(ms), ms.len());
    if n == 0 { assert(ms.take(0) =~= Seq::empty()); }
    else {
        mbs_back(ms, bc, (n - 1) as nat);
        let p = mbs_of(l, bc, (n - 1) as nat)->0; let m = ms[n - 1]; let cn = mb_key(m.0);
        assert(l[n - 1] == (m.0, mb_rec(m.1)));
        assert forall|i: int| 0 <= i < n - 1 implies mb_key((#[trigger] ms[i]).0) != cn by { if mb_key(ms[i].0) == cn { more_name(ms[i].0, m.0); } assert(ms[i].0 != ms[n - 1].0); }
        assert(code_of(p.1, m.0@ + "_moreBlock"@) == Some(m.1.code));
        assert(content_of(l[n - 1].1.spec@) == Some(m.1.spec));
        let ghost_t = ms.take(n - 1);
        assert forall|i: int| 0 <= i < ghost_t.len() implies (#[trigger] ghost_t[i]).0 != m.0 by { assert(ms[i].0 != ms[n - 1].0); }
        get_none(ghost_t, m.0); lhm_del_none(ghost_t, m.0);
        assert(AMoreBlock { name: m.0, spec: m.1.spec, code: m.1.code } == m.1);
        assert(ms.take(n as int) =~= ghost_t.push(m));
        assert forall|k: String| #[trigger] lhm_get(lhm_del(p.1, cn), k) == (if k == cn { None } else { lhm_get(p.1, k) }) by { lhm_get_del(p.1, cn, k); }
        lhm_get_del(p.1, cn, cn);
        assert forall|k: String| (forall|i: int| 0 <= i < n ==> mb_key((#[trigger] ms[i]).0) != k) implies #[trigger] lhm_get(lhm_del(p.1, cn), k) == lhm_get(bc, k) by { assert(mb_key(ms[n - 1].0) != k); assert forall|i: int| 0 <= i < n - 1 implies mb_key((#[trigger] ms[i]).0) != k by {} }
    }
}
// -- components
pub proof fn comp_back(k: ComponentKind, id: String, c: Component) requires comp_rec(k, id, c) ensures comp_of(c) == Some(k)
{ broadcast use vp_views; match k { ComponentKind::SharedPreferences { path } => { assert(c.param1 == path); } ComponentKind::FirebaseDatabase { path } => { assert(c.param1 == path); } ComponentKind::FirebaseStorage { path } => { assert(c.param1 == path); } ComponentKind::FilePicker { mime_type } => { assert(c.param1 == mime_type); } _ => {} } }
pub proof fn comps_back(l: Seq<(String, ComponentKind)>, c: Seq<Component>, n: nat)
    requires n <= l.len(), lhm_ok(l), comp_recs(l, c)
    ensures comps_of(c, n) == Some(l.take(n as int))
    decreases n
{
    if n == 0 { assert(l.take(0) =~= Seq::empty()); }
    else {
        comps_back(l, c, (n - 1) as nat); let x = l[n - 1]; let t = l.take(n - 1);
        comp_back(x.1, x.0, c[n - 1]);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != x.0 by { assert(l[i].0 != l[n - 1].0); }
        get_none(t, x.0); lhm_del_none(t, x.0); assert(l.take(n as int) =~= t.push(x));
    }
}
// -- screens
pub open spec fn layout_ok(t: Vec<VNode>) -> bool { uniq(whole_tree(t@)) && kinds_in(t, t@.len()) }
pub open spec fn fab_ok(v: VNode) -> bool { kind_ok(v) && v.children@.len() == 0 }
/// a screen whose names fit Sketchware's naming
pub open spec fn screen_ok(s: Screen) -> bool {
    &&& s.java_name@ == java_name(s.layout_name@)
    &&& layout_ok(s.layout)
    &&& (s.fab matches Some(v) ==> fab_ok(v))
    &&& events_ok(s.events@, s.more_blocks@)
    &&& forall|i: int| 0 <= i < s.events@.len() ==> code_back((#[trigger] s.events@[i]).code)
    &&& mbs_ok(s.more_blocks@)
}
/// the layout with the raw views as they were written
pub open spec fn rewritten(t: Vec<VNode>) -> Vec<VNode> { vec_of(fresh_in(t, t@.len(), top(), 0)) }
pub open spec fn refab(f: Option<VNode>) -> Option<VNode> { match f { Some(v) => Some(VNode { raw: fab_saved(v), ..v }), None => None } }
pub open spec fn rescreen(s: Screen) -> Screen { Screen { layout: rewritten(s.layout), fab: refab(s.fab), ..s } }
pub proof fn layout_back(t: Vec<VNode>)
    requires layout_ok(t)
    ensures tree_of(layout_saved(t).0@, layout_saved(t).0@.len()) == Some(rewritten(t)@), vec_of(rewritten(t)@) == rewritten(t), alike_in(rewritten(t), t, t@.len()), rewritten(t)@.len() == t@.len()
{
    broadcast use vp_views;
    c12_again(t); fresh_at(t, t@.len(), top(), 0); fresh_alike_in(t, rewritten(t), t@.len(), top(), 0);
    assert(rewritten(t)@ == fresh_in(t, t@.len(), top(), 0));
}
pub proof fn fab_back(v: VNode) requires fab_ok(v) ensures node_of(fab_saved(v)) == (VNode { raw: fab_saved(v), ..v })
{
    broadcast use vp_views;
    bare_same(v, top(), 0); let w = written(v, top(), 0); let f = fab_saved(v);
    assert(kind_of_view(f) == kind_of_view(w));
    assert(v.children@ =~= Seq::empty()); assert(vec_of(v.children@) == v.children);
    assert(node_of(f) == (VNode { raw: f, ..node_of(w) }));
}
pub proof fn screen_back(s: Screen, l: ScreenLogic, f: FileItem)
    requires screen_ok(s), logic_of(s, l), file_of(s, f)
    ensures screen_of(f.filename, l.name, f, layout_saved(s.layout), l, refab(s.fab)) == Some(rescreen(s))
{
    broadcast use {vp_maps, vp_views};
    let es = s.events@; let ms = s.more_blocks@; let bc = l.block_containers@; let cs = s.components@;
    layout_back(s.layout);
    ax_lhm_of(s.more_blocks); ax_lhm_of(s.components); ax_lhm_of(l.block_containers);
    conts_are(es, ms);
    let mb = (l.more_blocks->0).0@; let e0 = Seq::<(String, PMoreBlock)>::empty();
    assert(distinct(mb_ids(ms), ms.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < ms.len() implies #[trigger] mb_ids(ms)[i] != #[trigger] mb_ids(ms)[j] by { assert(ms[i].0 != ms[j].0); } }
    puts_new(e0, mb_ids(ms), mb_recs(ms), ms.len());
    assert(e0 + pairs(mb_ids(ms), mb_recs(ms), ms.len()) =~= pairs(mb_ids(ms), mb_recs(ms), ms.len()));
    assert(mb == pairs(mb_ids(ms), mb_recs(ms), ms.len()));
    mbs_back(ms, bc, ms.len());
    let m = mbs_of(mb, bc, ms.len())->0;
    assert(ms.take(ms.len() as int) =~= ms); assert(lhm_of(m.0) == s.more_blocks);
    let pc = (l.components->0).0@;
    comps_back(cs, pc, cs.len()); assert(cs.take(cs.len() as int) =~= cs);
    recs_back(es, ms, l);
    assert forall|i: int| 0 <= i < es.len() implies code_back((#[trigger] es[i]).code) && lhm_get(m.1, string_of(container_name(es[i]))) == Some(cont_of(es[i].code)) by {
        let k = string_of(container_name(es[i]));
        assert forall|j: int| 0 <= j < ms.len() implies mb_key((#[trigger] ms[j]).0) != k by { assert(mb_key(ms[j].0)@ == ms[j].0@ + "_moreBlock"@); assert(k@ == container_name(es[i])); }
    }
    evs_back(es, m.1, es.len()); assert(es.take(es.len() as int) =~= es); assert(vec_of(es) == s.events);
}
// -- the project
pub open spec fn names_ok(m: Model) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < m.screens@.len() ==> (#[trigger] m.screens@[i]).layout_name != (#[trigger] m.screens@[j]).layout_name && m.screens@[i].java_name != m.screens@[j].java_name
    &&& forall|i: int, j: int| 0 <= i < j < m.custom_views@.len() ==> (#[trigger] m.custom_views@[i]).res_name != (#[trigger] m.custom_views@[j]).res_name
    &&& forall|i: int, j: int| 0 <= i < m.screens@.len() && 0 <= j < m.custom_views@.len() ==> (#[trigger] m.screens@[i]).layout_name != (#[trigger] m.custom_views@[j]).res_name
}
/// resources go by file names of their own, of the right kind
pub open spec fn res_names_ok(l: Seq<(ResourceId, ResourceFileWrapper)>) -> bool { all_named(l) && forall|i: int, j: int| 0 <= i < j < l.len() ==> own_name((#[trigger] l[i]).1) != own_name((#[trigger] l[j]).1) }
pub open spec fn consistent(m: Model) -> bool {
    &&& names_ok(m)
    &&& forall|i: int| 0 <= i < m.screens@.len() ==> screen_ok(#[trigger] m.screens@[i])
    &&& forall|i: int| 0 <= i < m.custom_views@.len() ==> layout_ok((#[trigger] m.custom_views@[i]).layout)
    &&& res_names_ok(m.resources.images@) && res_names_ok(m.resources.sounds@) && res_names_ok(m.resources.fonts@)
}
pub proof fn acts_some(l: Seq<FileItem>, r: Rest, n: nat)
    requires n <= l.len(), rest_ok(r), forall|i: int| 0 <= i < l.len() ==> screen_for(#[trigger] l[i], r) is Some,
        forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).filename != (#[trigger] l[j]).filename && jn(l[i]) != jn(l[j])
    ensures acts_of(l, r, n) is Some
    decreases n
{
    if n > 0 {
        acts_some(l, r, (n - 1) as nat); acts_own(l, r, (n - 1) as nat);
        let p = acts_of(l, r, (n - 1) as nat)->0; let f = l[n - 1];
        assert(lhm_get(p.1.layouts, f.filename) == lhm_get(r.layouts, f.filename));
        assert(lhm_get(p.1.fabs, f.filename) == lhm_get(r.fabs, f.filename));
        assert(lhm_get(p.1.logics, jn(f)) == lhm_get(r.logics, jn(f)));
        assert(screen_for(f, p.1) == screen_for(f, r));
    }
}
pub proof fn fabs_none(l: Seq<Screen>, n: nat, k: String)
    requires n <= l.len(), forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).layout_name != k
    ensures lhm_ok(fabs_saved(l, n)), lhm_get(fabs_saved(l, n), k) is None
    decreases n
{
    if n > 0 { fabs_none(l, (n - 1) as nat, k); let b = fabs_saved(l, (n - 1) as nat); let s = l[n - 1]; assert(s.layout_name != k); if let Some(v) = s.fab { lhm_get_put(b, s.layout_name, fab_saved(v), k); } }
}
pub proof fn fab_at(l: Seq<Screen>, n: nat, i: int)
    requires 0 <= i < n <= l.len(), forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).layout_name != (#[trigger] l[j]).layout_name
    ensures lhm_ok(fabs_saved(l, n)), lhm_get(fabs_saved(l, n), l[i].layout_name) == (match l[i].fab { Some(v) => Some(fab_saved(v)), None => None })
    decreases n
{
    let b = fabs_saved(l, (n - 1) as nat); let s = l[n - 1]; let k = l[i].layout_name;
    if i < n - 1 { fab_at(l, (n - 1) as nat, i); assert(l[i].layout_name != l[n - 1].layout_name); }
    else { assert forall|j: int| 0 <= j < n - 1 implies (#[trigger] l[j]).layout_name != k by { assert(l[j].layout_name != l[n - 1].layout_name); } fabs_none(l, (n - 1) as nat, k); }
    if let Some(v) = s.fab { lhm_get_put(b, s.layout_name, fab_saved(v), k); }
}
pub open spec fn lays(s: Seq<Screen>, c: Seq<CustomView>) -> Seq<(String, PLayout)> { pairs(sc_names(s), sc_layouts(s), s.len()) + pairs(cv_names(c), cv_layouts(c), c.len()) }
pub proof fn lays_are(m: Model)
    requires names_ok(m)
    ensures ({ let s = m.screens@; let c = m.custom_views@; layouts_saved(s, c) == lays(s, c) && lhm_ok(lays(s, c))
        && (forall|i: int| 0 <= i < s.len() ==> lhm_get(lays(s, c), (#[trigger] s[i]).layout_name) == Some(layout_saved(s[i].layout)))
        && (forall|i: int| 0 <= i < c.len() ==> lhm_get(lays(s, c), (#[trigger] c[i]).res_name) == Some(layout_saved(c[i].layout))) })
{
    let s = m.screens@; let c = m.custom_views@; let e = Seq::<(String, PLayout)>::empty(); let (sn, cn) = (sc_names(s), cv_names(c));
    assert(distinct(sn, s.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] sn[i] != #[trigger] sn[j] by { assert(s[i].layout_name != s[j].layout_name); } }
    assert(distinct(cn, c.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] cn[i] != #[trigger] cn[j] by { assert(c[i].res_name != c[j].res_name); } }
    puts_new(e, sn, sc_layouts(s), s.len()); let b = e + pairs(sn, sc_layouts(s), s.len()); assert(b =~= pairs(sn, sc_layouts(s), s.len()));
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < c.len() implies (#[trigger] b[i]).0 != #[trigger] cn[j] by { assert(b[i].0 == s[i].layout_name); assert(cn[j] == c[j].res_name); }
    puts_new(b, cn, cv_layouts(c), c.len()); let a = lays(s, c);
    assert forall|i: int| 0 <= i < s.len() implies lhm_get(a, (#[trigger] s[i]).layout_name) == Some(layout_saved(s[i].layout)) by { assert(a[i] == (sn[i], sc_layouts(s)[i])); get_at(a, i); }
    assert forall|i: int| 0 <= i < c.len() implies lhm_get(a, (#[trigger] c[i]).res_name) == Some(layout_saved(c[i].layout)) by { assert(a[s.len() + i] == (cn[i], cv_layouts(c)[i])); get_at(a, s.len() + i); }
}
pub proof fn customs_back(c: Seq<CustomView>, l: Seq<FileItem>, lay: Seq<(String, PLayout)>, n: nat)
    requires n <= c.len(), customs_are(c, l, c.len() as int), lhm_ok(lay), forall|i: int| 0 <= i < c.len() ==> layout_ok((#[trigger] c[i]).layout) && lhm_get(lay, c[i].res_name) == Some(layout_saved(c[i].layout)),
        forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).res_name != (#[trigger] c[j]).res_name
    ensures customs_of(l, lay, n) matches Some(p) && p.0 == Seq::new(n, |i: int| CustomView { layout: rewritten(c[i].layout), ..c[i] }) && lhm_ok(p.1) && forall|i: int| n <= i < c.len() ==> lhm_get(p.1, (#[trigger] c[i]).res_name) == lhm_get(lay, c[i].res_name)
    decreases n
{
    let r = |i: int| CustomView { layout: rewritten(c[i].layout), ..c[i] };
    if n == 0 { assert(Seq::<CustomView>::empty() =~= Seq::new(0, r)); }
    else {
        customs_back(c, l, lay, (n - 1) as nat); let p = customs_of(l, lay, (n - 1) as nat)->0; let x = c[n - 1];
        assert(l[n - 1].filename == x.res_name); assert(c[n - 1].res_name == x.res_name);
        layout_back(x.layout); lhm_get_del(p.1, x.res_name, x.res_name);
        assert forall|i: int| n <= i < c.len() implies lhm_get(lhm_del(p.1, x.res_name), (#[trigger] c[i]).res_name) == lhm_get(lay, c[i].res_name) by { lhm_get_del(p.1, x.res_name, c[i].res_name); assert(c[n - 1].res_name != c[i].res_name); }
        assert((customs_of(l, lay, n)->0).0 =~= Seq::new(n, r));
    }
}
// -- resources
pub open spec fn file_name_of(l: Seq<(ResourceId, ResourceFileWrapper)>, i: int) -> String { string_of(own_name(l[i].1)->0) }
pub proof fn files_are(l: Seq<(ResourceId, ResourceFileWrapper)>, n: nat)
    requires n <= l.len(), res_names_ok(l)
    ensures forall|k: String| #[trigger] files_saved(l, false, n).dom().contains(k) <==> exists|i: int| 0 <= i < n && file_name_of(l, i) == k, forall|i: int| 0 <= i < n ==> files_saved(l, false, n).dom().contains(#[trigger] file_name_of(l, i)) && files_saved(l, false, n)[file_name_of(l, i)] == l[i].1
    decreases n
{
    broadcast use vp_views;
    if n > 0 {
        let n1 = (n - 1) as nat; files_are(l, n1); let b = files_saved(l, false, n1); let f = files_saved(l, false, n);
        assert forall|k: String| #[trigger] f.dom().contains(k) <==> exists|i: int| 0 <= i < n && file_name_of(l, i) == k by {
            if f.dom().contains(k) { if b.dom().contains(k) { let i = choose|i: int| 0 <= i < n1 && file_name_of(l, i) == k; assert(0 <= i < n && file_name_of(l, i) == k); } else { assert(file_name_of(l, n - 1) == k); } }
            if exists|i: int| 0 <= i < n && file_name_of(l, i) == k { let i = choose|i: int| 0 <= i < n && file_name_of(l, i) == k; if i < n1 { assert(0 <= i < n1 && file_name_of(l, i) == k); assert(b.dom().contains(k)); } }
        }
        assert forall|i: int| 0 <= i < n implies f.dom().contains(#[trigger] file_name_of(l, i)) && f[file_name_of(l, i)] == l[i].1 by {
            if i < n1 { assert(b.dom().contains(file_name_of(l, i))); names_apart(l, i, n - 1); }
        }
    }
}
pub proof fn names_apart(l: Seq<(ResourceId, ResourceFileWrapper)>, i: int, j: int) requires res_names_ok(l), 0 <= i < l.len(), 0 <= j < l.len(), i != j ensures file_name_of(l, i) != file_name_of(l, j)
{ broadcast use vp_views; if i < j { assert(own_name(l[i].1) != own_name(l[j].1)); } else { assert(own_name(l[j].1) != own_name(l[i].1)); } assert(own_name(l[i].1) is Some && own_name(l[j].1) is Some); assert(file_name_of(l, i)@ == own_name(l[i].1)->0); assert(file_name_of(l, j)@ == own_name(l[j].1)->0); }
pub proof fn ids_apart(l: Seq<(ResourceId, ResourceFileWrapper)>, n: nat, t: Seq<(ResourceId, ResourceFileWrapper)>) requires 0 < n <= l.len(), lhm_ok(l), t.len() == n - 1, forall|i: int| 0 <= i < n - 1 ==> (#[trigger] t[i]).0 == l[i].0 ensures lhm_del(t, l[n - 1].0) == t
{ if lhm_get(t, l[n - 1].0) is Some { let i = lhm_get_ix(t, l[n - 1].0); assert(t[i].0 == l[i].0); assert(l[i].0 != l[n - 1].0); } lhm_del_none(t, l[n - 1].0); }
pub proof fn conv_back(l: Seq<(ResourceId, ResourceFileWrapper)>, r: Seq<ResourceItem>, t: ResourceType, n: nat)
    requires n <= l.len(), lhm_ok(l), res_names_ok(l), items_of(l, r, l.len() as int)
    ensures ({ let f = files_saved(l, false, l.len()); conv(r, Some(f), Seq::empty(), t, n) matches Some(p) && p.0 == l.take(n as int) && (p.1 matches Some(g) && forall|i: int| n <= i < l.len() ==> g.dom().contains(#[trigger] file_name_of(l, i)) && g[file_name_of(l, i)] == l[i].1) })
    decreases n
{
    broadcast use vp_views; reveal(conv);
    let f = files_saved(l, false, l.len());
    if n == 0 { files_are(l, l.len()); assert(l.take(0) =~= Seq::empty()); }
    else {
        conv_back(l, r, t, (n - 1) as nat);
        let p = conv(r, Some(f), Seq::empty(), t, (n - 1) as nat)->0; let g = p.1->0; let x = l[n - 1];
        assert(item_of(l[n - 1], r[n - 1]));
        assert(r[n - 1].full_name == file_name_of(l, n - 1)); assert(ResourceId(r[n - 1].name) == x.0);
        ids_apart(l, n, l.take(n - 1)); assert(l.take(n as int) =~= l.take(n - 1).push(x));
        assert forall|i: int| n <= i < l.len() implies g.remove(file_name_of(l, n - 1)).dom().contains(#[trigger] file_name_of(l, i)) && g.remove(file_name_of(l, n - 1))[file_name_of(l, i)] == l[i].1 by { names_apart(l, i, n - 1); }
    }
}
/// without files the resources keep their ids, kinds and file names
pub open spec fn renumbered(l: Seq<(ResourceId, ResourceFileWrapper)>, r: Seq<(ResourceId, ResourceFileWrapper)>, t: ResourceType) -> bool { l.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == l[i].0 && own_name(r[i].1) == own_name(l[i].1) && (r[i].1 matches ResourceFileWrapper::U32Id { res_type, .. } && res_type == t) }
pub proof fn conv_auto(l: Seq<(ResourceId, ResourceFileWrapper)>, r: Seq<ResourceItem>, ids: Seq<u32>, t: ResourceType, n: nat)
    requires n <= l.len(), lhm_ok(l), all_named(l), items_of(l, r, l.len() as int)
    ensures conv(r, None, ids, t, n) matches Some(p) && p.1 is None && renumbered(l.take(n as int), p.0, t)
    decreases n
{
    broadcast use vp_views; reveal(conv);
    if n > 0 {
        conv_auto(l, r, ids, t, (n - 1) as nat); let p = conv(r, None, ids, t, (n - 1) as nat)->0;
        assert(item_of(l[n - 1], r[n - 1])); assert(ResourceId(r[n - 1].name) == l[n - 1].0);
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] p.0[i]).0 == l[i].0 by { assert(l.take(n - 1)[i] == l[i]); }
        ids_apart(l, n, p.0);
        let q = conv(r, None, ids, t, n)->0;
        assert forall|i: int| 0 <= i < n implies (#[trigger] q.0[i]).0 == l.take(n as int)[i].0 && own_name(q.0[i].1) == own_name(l.take(n as int)[i].1) && (q.0[i].1 matches ResourceFileWrapper::U32Id { res_type, .. } && res_type == t) by { if i < n - 1 { assert(q.0[i] == p.0[i]); assert(l.take(n - 1)[i] == l[i]); } }
    }
}
pub open spec fn res_back(auto: bool, l: LinkedHashMap<ResourceId, ResourceFileWrapper>, r: LinkedHashMap<ResourceId, ResourceFileWrapper>, t: ResourceType) -> bool { if auto { renumbered(l@, r@, t) } else { r == l } }
/// the model again: raw views hold what was written; with automatic ids the resources get new ones and the icon is not kept
pub open spec fn same_model(m: Model, n: Model) -> bool {
    &&& n.metadata == m.metadata && n.colors == m.colors && n.libraries == m.libraries && n.automatic_res_file_ids == m.automatic_res_file_ids
    &&& n.custom_icon == (if m.automatic_res_file_ids { None } else { m.custom_icon })
    &&& n.screens@ == Seq::new(m.screens@.len(), |i: int| rescreen(m.screens@[i]))
    &&& n.custom_views@ == Seq::new(m.custom_views@.len(), |i: int| CustomView { layout: rewritten(m.custom_views@[i].layout), ..m.custom_views@[i] })
    &&& res_back(m.automatic_res_file_ids, m.resources.images, n.resources.images, ResourceType::Image)
    &&& res_back(m.automatic_res_file_ids, m.resources.sounds, n.resources.sounds, ResourceType::Sound)
    &&& res_back(m.automatic_res_file_ids, m.resources.fonts, n.resources.fonts, ResourceType::Font)
}
pub proof fn screens_back(m: Model, p: ParsedProject)
    requires consistent(m), saves_as(m, p)
    ensures screens_of(p) matches Some(s) && s.0 == Seq::new(m.screens@.len(), |i: int| rescreen(m.screens@[i])) && lhm_ok(s.1.layouts) && forall|i: int| 0 <= i < m.custom_views@.len() ==> lhm_get(s.1.layouts, (#[trigger] m.custom_views@[i]).res_name) == Some(layout_saved(m.custom_views@[i].layout))
{
    broadcast use vp_views;
    let ss = m.screens@; let cs = m.custom_views@; let l = p.file.activities@; let r = rest_of(p); let n = ss.len();
    let ls = choose|ls: Seq<ScreenLogic>| #[trigger] logics_are(ss, ls, ss.len() as int) && p.logic.screens@ == puts(Seq::empty(), javas(ss), ls, ss.len());
    lays_are(m);
    let e = Seq::<(String, ScreenLogic)>::empty(); let js = javas(ss);
    assert(distinct(js, n as int)) by { assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] js[i] != #[trigger] js[j] by { assert(ss[i].java_name != ss[j].java_name); } }
    assert(rest_ok(r)) by { ax_lhm_of(p.view.layouts); ax_lhm_of(p.view.fabs); ax_lhm_of(p.logic.screens); }
    puts_new(e, js, ls, n); let lg = e + pairs(js, ls, n); assert(lg =~= pairs(js, ls, n));
    assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] l[i]).filename != (#[trigger] l[j]).filename && jn(l[i]) != jn(l[j]) by {
        assert(file_of(ss[i], l[i])); assert(file_of(ss[j], l[j])); assert(ss[i].layout_name != ss[j].layout_name);
        assert(screen_ok(ss[i]) && screen_ok(ss[j])); assert(jn(l[i]) == ss[i].java_name); assert(jn(l[j]) == ss[j].java_name);
    }
    assert forall|i: int| 0 <= i < n implies screen_for(#[trigger] l[i], r) == Some(rescreen(ss[i])) by {
        let f = l[i]; let s = ss[i];
        assert(file_of(s, f)); assert(screen_ok(s)); assert(logic_of(s, ls[i]));
        assert(lg[i] == (js[i], ls[i])); get_at(lg, i); assert(jn(f) == s.java_name); assert(js[i] == s.java_name);
        assert(logic_for(r.logics, f.filename) == ls[i]);
        assert(lhm_get(r.layouts, s.layout_name) == Some(layout_saved(s.layout)));
        if let Some(v) = s.fab { fab_back(v); } fab_at(ss, n, i);
        assert(fab_for(r.fabs, f.filename) == refab(s.fab));
        screen_back(s, ls[i], f);
    }
    acts_some(l, r, n); acts_own(l, r, n);
    let s = screens_of(p)->0;
    assert(s.0 =~= Seq::new(n, |i: int| rescreen(ss[i]))) by { assert forall|i: int| 0 <= i < n implies s.0[i] == rescreen(ss[i]) by { assert(screen_for(l[i], r) == Some(rescreen(ss[i]))); } }
    assert forall|i: int| 0 <= i < cs.len() implies lhm_get(s.1.layouts, (#[trigger] cs[i]).res_name) == Some(layout_saved(cs[i].layout)) by {
        assert forall|j: int| 0 <= j < n implies (#[trigger] l[j]).filename != cs[i].res_name by { assert(file_of(ss[j], l[j])); assert(ss[j].layout_name != cs[i].res_name); }
    }
}
/// what comes back of one kind of resources
pub proof fn kind_back(auto: bool, l: LinkedHashMap<ResourceId, ResourceFileWrapper>, r: Seq<ResourceItem>, fs: Option<Map<String, ResourceFileWrapper>>, t: ResourceType)
    requires items_of(l@, r, l@.len() as int), res_names_ok(l@), auto ==> fs is None, !auto ==> fs == Some(files_saved(l@, false, l@.len()))
    ensures res_ok(r, fs, t), forall|n: LinkedHashMap<ResourceId, ResourceFileWrapper>| #[trigger] res_is(r, fs, t, n@) ==> res_back(auto, l, n, t)
{
    ax_lhm_of(l);
    if !auto { conv_back(l@, r, t, l@.len()); assert(l@.take(l@.len() as int) =~= l@); }
    assert forall|n: LinkedHashMap<ResourceId, ResourceFileWrapper>| #[trigger] res_is(r, fs, t, n@) implies res_back(auto, l, n, t) by {
        ax_lhm_of(n);
        let ids = choose|ids: Seq<u32>| #[trigger] ids_ok(fs, ids, r.len() as int) && conv(r, fs, ids, t, r.len()) is Some && (conv(r, fs, ids, t, r.len())->0).0 == n@;
        if auto { conv_auto(l@, r, ids, t, l@.len()); assert(l@.take(l@.len() as int) =~= l@); }
        else { assert(n@ == l@); assert(lhm_of(n@) == n); assert(lhm_of(l@) == l); }
    }
}
/// C22: a saved model can be opened, and opens as the model
pub proof fn c22_back(m: Model, p: ParsedProject)
    requires consistent(m), saves_as(m, p)
    ensures openable(p), forall|n: Model| #[trigger] opens_as(p, n) ==> same_model(m, n)
{
    screens_back(m, p); let s = screens_of(p)->0; let cs = m.custom_views@;
    customs_back(cs, p.file.custom_views@, s.1.layouts, cs.len());
    let auto = m.automatic_res_file_ids;
    kind_back(auto, m.resources.images, p.resource.images@, files_of(p, 0), ResourceType::Image);
    kind_back(auto, m.resources.sounds, p.resource.sounds@, files_of(p, 1), ResourceType::Sound);
    kind_back(auto, m.resources.fonts, p.resource.fonts@, files_of(p, 2), ResourceType::Font);
}
/// trees whose raw views are as flattening writes them, and whose FABs are as saving writes them, come back to the letter
pub open spec fn settled(m: Model) -> bool {
    &&& forall|i: int| 0 <= i < m.screens@.len() ==> rescreen(#[trigger] m.screens@[i]) == m.screens@[i]
    &&& forall|i: int| 0 <= i < m.custom_views@.len() ==> rewritten((#[trigger] m.custom_views@[i]).layout) == m.custom_views@[i].layout
}
pub proof fn c22_same(m: Model, n: Model)
    requires settled(m), same_model(m, n), !m.automatic_res_file_ids
    ensures n == m
{
    broadcast use vp_views;
    assert(n.screens@ =~= m.screens@); assert(n.custom_views@ =~= m.custom_views@) by { assert forall|i: int| 0 <= i < m.custom_views@.len() implies n.custom_views@[i] == m.custom_views@[i] by { assert(rewritten(m.custom_views@[i].layout) == m.custom_views@[i].layout); } }
    assert(vec_of(n.screens@) == n.screens); assert(vec_of(n.custom_views@) == n.custom_views); assert(n.resources == m.resources);
}
/// an opened layout with proper parent types is settled
pub proof fn c22_opened(l: Seq<AndroidView>)
    requires parents_ok(l, l.len())
    ensures tree_of(l, l.len()) matches Some(t) ==> rewritten(vec_of(t)) == vec_of(t)
{
    broadcast use vp_views;
    if let Some(t) = tree_of(l, l.len()) { opened_still(l, l.len()); let v = vec_of(t); fresh_at(v, t.len(), top(), 0); let f = fresh_in(v, t.len(), top(), 0); assert(f =~= t) by { assert forall|i: int| 0 <= i < t.len() implies f[i] == t[i] by { assert(f[i] == fresh(v@[i], top(), 0)); assert(still(t[i], top(), 0)); } } }
}
pub proof fn c22_opened_fab(a: AndroidView) requires a.parent is None, a.parent_type == -1 ensures refab(Some(node_of(a))) == Some(node_of(a))
{ broadcast use vp_views; kind_read_write(a); let v = node_of(a); assert(fab_saved(v) == a); }
