/// the container of an event record
pub open spec fn cn_of(e: Rec) -> String { string_of(container_name(event_of(e, no_code()))) }
/// every event gets the code of its own container when no two events name the same one
pub proof fn evs_own(l: Seq<Rec>, bc: Conts, n: nat)
    requires n <= l.len(), lhm_ok(bc), evs_of(l, bc, n) is Some, forall|i: int, j: int| 0 <= i < j < n ==> cn_of(l[i]) != cn_of(l[j])
    ensures
        (evs_of(l, bc, n)->0).0.len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] (evs_of(l, bc, n)->0).0[i].name == l[i].event_name && Some((evs_of(l, bc, n)->0).0[i].event_type) == kind_of(l[i]) && Some((evs_of(l, bc, n)->0).0[i].code) == code_of(bc, container_name(event_of(l[i], no_code()))),
        lhm_ok((evs_of(l, bc, n)->0).1),
        forall|k: String| (forall|i: int| 0 <= i < n ==> #[trigger] cn_of(l[i]) != k) ==> #[trigger] lhm_get((evs_of(l, bc, n)->0).1, k) == lhm_get(bc, k),
    decreases n
{
    broadcast use vp_views;
    if n > 0 {
        evs_own(l, bc, (n - 1) as nat);
        let p = evs_of(l, bc, (n - 1) as nat)->0;
        let cn = cn_of(l[n - 1]);
        assert forall|k: String| #[trigger] lhm_get(lhm_del(p.1, cn), k) == (if k == cn { None } else { lhm_get(p.1, k) }) by { lhm_get_del(p.1, cn, k); }
        lhm_get_del(p.1, cn, cn);
        assert(lhm_get(p.1, cn) == lhm_get(bc, cn));
    }
}
pub proof fn mbs_own(l: Seq<(String, PMoreBlock)>, bc: Conts, n: nat)
    requires n <= l.len(), lhm_ok(bc), lhm_ok(l), mbs_of(l, bc, n) is Some
    ensures
        (mbs_of(l, bc, n)->0).0.len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] (mbs_of(l, bc, n)->0).0[i]).0 == l[i].0 && (mbs_of(l, bc, n)->0).0[i].1.name == l[i].0 && Some((mbs_of(l, bc, n)->0).0[i].1.spec) == content_of(l[i].1.spec@) && Some((mbs_of(l, bc, n)->0).0[i].1.code) == code_of(bc, l[i].0@ + "_moreBlock"@),
        lhm_ok((mbs_of(l, bc, n)->0).1), lhm_ok((mbs_of(l, bc, n)->0).0),
        forall|k: String| (forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).0@ + "_moreBlock"@ != k@) ==> #[trigger] lhm_get((mbs_of(l, bc, n)->0).1, k) == lhm_get(bc, k),
    decreases n
{
    broadcast use vp_views;
    if n > 0 {
        mbs_own(l, bc, (n - 1) as nat);
        let p = mbs_of(l, bc, (n - 1) as nat)->0;
        let id = l[n - 1].0;
        let cn = string_of(id@ + "_moreBlock"@);
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] l[i]).0@ + "_moreBlock"@ != cn@ by {
            assert(l[i].0 != l[n - 1].0);
            assert(l[i].0@ != id@);
            let (a, b) = (l[i].0@ + "_moreBlock"@, id@ + "_moreBlock"@);
            if a == b { assert(a.len() == b.len()); assert(a.take(l[i].0@.len() as int) =~= l[i].0@); assert(b.take(id@.len() as int) =~= id@); }
        }
        assert forall|k: String| #[trigger] lhm_get(lhm_del(p.1, cn), k) == (if k == cn { None } else { lhm_get(p.1, k) }) by { lhm_get_del(p.1, cn, k); }
        lhm_get_del(p.1, cn, cn);
        assert(lhm_get(p.1, cn) == lhm_get(bc, cn));
        assert(lhm_get(p.0, id) is None) by { if lhm_get(p.0, id) is Some { let i = lhm_get_ix(p.0, id); assert(p.0[i].0 == l[i].0); } }
        lhm_del_none(p.0, id);
        lhm_get_put(p.0, id, (mbs_of(l, bc, n)->0).0[n - 1].1, id);
    }
}
/// a screen's pieces are its own: every more block and every event carries the code of its own container
pub proof fn c21_own(layout_name: String, logic_name: String, f: FileItem, v: PLayout, l: ScreenLogic, fab: Option<VNode>)
    requires
        screen_of(layout_name, logic_name, f, v, l, fab) is Some,
        forall|i: int, j: int| 0 <= i < j < event_recs(l).len() ==> cn_of(event_recs(l)[i]) != cn_of(event_recs(l)[j]),
        l.more_blocks matches Some(p) ==> forall|i: int, j: int| 0 <= i < event_recs(l).len() && 0 <= j < p.0@.len() ==> (#[trigger] cn_of(event_recs(l)[i]))@ != (#[trigger] p.0@[j]).0@ + "_moreBlock"@,
    ensures ({
        let s = screen_of(layout_name, logic_name, f, v, l, fab)->0;
        let bc = l.block_containers@;
        let mb = match l.more_blocks { Some(p) => p.0@, None => Seq::empty() };
        let es = event_recs(l);
        &&& s.more_blocks@.len() == mb.len()
        &&& forall|i: int| 0 <= i < mb.len() ==> (#[trigger] s.more_blocks@[i]).0 == mb[i].0 && s.more_blocks@[i].1.name == mb[i].0 && Some(s.more_blocks@[i].1.spec) == content_of(mb[i].1.spec@) && Some(s.more_blocks@[i].1.code) == code_of(bc, mb[i].0@ + "_moreBlock"@)
        &&& s.events@.len() == es.len()
        &&& forall|i: int| 0 <= i < es.len() ==> (#[trigger] s.events@[i]).name == es[i].event_name && Some(s.events@[i].event_type) == kind_of(es[i]) && Some(s.events@[i].code) == code_of(bc, container_name(event_of(es[i], no_code())))
    })
{
    broadcast use {vp_maps, vp_views};
    let bc = l.block_containers@;
    let mb = match l.more_blocks { Some(p) => p.0@, None => Seq::empty() };
    let es = event_recs(l);
    if l.more_blocks is Some { ax_lhm_of((l.more_blocks->0).0); }
    ax_lhm_of(l.block_containers);
    mbs_own(mb, bc, mb.len());
    let m = mbs_of(mb, bc, mb.len())->0;
    evs_own(es, m.1, es.len());
    assert forall|i: int| 0 <= i < es.len() implies lhm_get(m.1, cn_of(#[trigger] es[i])) == lhm_get(bc, cn_of(es[i])) by {
        assert forall|j: int| 0 <= j < mb.len() implies (#[trigger] mb[j]).0@ + "_moreBlock"@ != cn_of(es[i])@ by {}
    }
    let s = screen_of(layout_name, logic_name, f, v, l, fab)->0;
    ax_lhm_view(m.0);
}
/// the onCreate code is the first event exactly when its container is there
pub proof fn c21_oncreate(layout_name: String, logic_name: String, f: FileItem, v: PLayout, l: ScreenLogic, fab: Option<VNode>)
    requires
        screen_of(layout_name, logic_name, f, v, l, fab) is Some,
        forall|i: int, j: int| 0 <= i < j < event_recs(l).len() ==> cn_of(event_recs(l)[i]) != cn_of(event_recs(l)[j]),
        l.more_blocks matches Some(p) ==> forall|i: int, j: int| 0 <= i < event_recs(l).len() && 0 <= j < p.0@.len() ==> (#[trigger] cn_of(event_recs(l)[i]))@ != (#[trigger] p.0@[j]).0@ + "_moreBlock"@,
    ensures ({
        let s = screen_of(layout_name, logic_name, f, v, l, fab)->0;
        (lhm_get(l.block_containers@, string_of(oncreate_cont())) is Some) ==> s.events@.len() > 0 && s.events@[0].name@ == "onCreate"@ && s.events@[0].event_type == EventType::ActivityEvent && Some(s.events@[0].code) == code_of(l.block_containers@, oncreate_cont())
    })
{
    broadcast use vp_views;
    if lhm_get(l.block_containers@, string_of(oncreate_cont())) is Some {
        c21_own(layout_name, logic_name, f, v, l, fab);
        let s = screen_of(layout_name, logic_name, f, v, l, fab)->0;
        let es = event_recs(l);
        assert(es.len() > 0 && es[0] == oncreate());
        reveal_strlit("onCreate"); reveal_strlit("_initializeLogic"); reveal_strlit("onCreate_initializeLogic");
        assert("onCreate"@ + "_initializeLogic"@ =~= oncreate_cont());
        let e0 = event_of(oncreate(), no_code());
        assert(kind_of(oncreate()) == Some(EventType::ActivityEvent));
        assert(e0.event_type == EventType::ActivityEvent && e0.name@ == "onCreate"@);
        assert(container_name(e0) == oncreate_cont());
        assert(s.events@[0].name == es[0].event_name);
    }
}
