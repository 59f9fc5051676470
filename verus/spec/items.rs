/// one JSON object per line
pub open spec fn item_text<T: VpCodec>(x: T) -> Seq<char> { jtext(x.enc()->0) }
pub open spec fn item_texts<T: VpCodec>(s: Seq<T>) -> Seq<Seq<char>> { s.map_values(|x: T| item_text(x)) }
pub open spec fn is_obj<T: VpCodec>(x: T) -> bool { x.good() && x.enc() is Some && x.enc()->0 is Obj }
pub open spec fn all_objs<T: VpCodec>(xs: Seq<T>) -> bool { forall|i: int| 0 <= i < xs.len() ==> is_obj(#[trigger] xs[i]) }
pub proof fn obj_text<T: VpCodec>(x: T) requires is_obj(x) ensures solid(item_text(x)), oneline(item_text(x)), item_text(x)[0] == '{', item_text(x).last() == '}', jread::<T>(item_text(x)) == Some(x)
{ broadcast use vp_json, ax_white; x.rt(); ax_json(x); }
pub proof fn items_solid<T: VpCodec>(xs: Seq<T>) requires all_objs(xs) ensures solids(item_texts(xs)), onelines(item_texts(xs))
{ assert forall|i: int| 0 <= i < xs.len() implies solid(#[trigger] item_texts(xs)[i]) && oneline(item_texts(xs)[i]) by { assert(is_obj(xs[i])); obj_text(xs[i]); } }
pub proof fn items_step<T: VpCodec>(xs: Seq<T>, n: int) requires 0 <= n < xs.len()
    ensures item_texts(xs.take(n + 1)).drop_last() == item_texts(xs.take(n)), item_texts(xs.take(n + 1)).last() == item_text(xs[n]), unlines(item_texts(xs.take(n + 1))) == unlines(item_texts(xs.take(n))) + item_text(xs[n]) + nl(),
        prelines(item_texts(xs.take(n + 1))) == prelines(item_texts(xs.take(n))) + nl() + item_text(xs[n])
{ assert(item_texts(xs.take(n + 1)).drop_last() =~= item_texts(xs.take(n))); }
