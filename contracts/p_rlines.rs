// How the lines of a component become its fields.
pub mod rlines {
    use vstd::prelude::*;
    use crate::prop::Prop;
    use crate::ContentLine;
    pub open spec fn named<P: Prop>(l: ContentLine) -> bool { l.key@ == P::name() }
    pub open spec fn is_x(k: Seq<char>) -> bool { "X-"@.is_prefix_of(k) }
    /// v comes from the last line of that name
    pub open spec fn last_rel<P: Prop>(ls: Seq<ContentLine>, v: P::V) -> bool {
        exists|i: int| 0 <= i < ls.len() && named::<P>(#[trigger] ls[i]) && P::ok(ls[i], v)
            && forall|j: int| i < j < ls.len() ==> !named::<P>(#[trigger] ls[j])
    }
    /// there is no line of that name, or the last one is wrong
    pub open spec fn last_bad<P: Prop>(ls: Seq<ContentLine>) -> bool {
        ||| forall|j: int| 0 <= j < ls.len() ==> !named::<P>(#[trigger] ls[j])
        ||| exists|i: int| 0 <= i < ls.len() && named::<P>(#[trigger] ls[i]) && P::err(ls[i])
                && forall|j: int| i < j < ls.len() ==> !named::<P>(#[trigger] ls[j])
    }
    pub open spec fn some_bad<P: Prop>(ls: Seq<ContentLine>) -> bool {
        exists|i: int| 0 <= i < ls.len() && named::<P>(#[trigger] ls[i]) && P::err(ls[i])
    }
    pub open spec fn some_of<V>(w: Option<V>) -> bool { true }
    pub open spec fn some_vals<T>(w: Seq<T>) -> bool { true }
    /// v comes from the last of the first n lines that has that name, and all of them are valid
    #[verifier::opaque]
    pub open spec fn opt_rel<P: Prop>(ls: Seq<ContentLine>, n: nat, v: Option<P::V>) -> bool decreases n {
        if n == 0 { v is None }
        else if named::<P>(ls[n - 1]) { v is Some && P::ok(ls[n - 1], v->0) && exists|w: Option<P::V>| #[trigger] some_of(w) && opt_rel::<P>(ls, (n - 1) as nat, w) }
        else { opt_rel::<P>(ls, (n - 1) as nat, v) }
    }
    /// v has one value for each of the first n lines that has that name, in order
    #[verifier::opaque]
    pub open spec fn vec_rel<P: Prop>(ls: Seq<ContentLine>, n: nat, v: Seq<P::V>) -> bool decreases n {
        if n == 0 { v.len() == 0 }
        else if named::<P>(ls[n - 1]) { v.len() > 0 && P::ok(ls[n - 1], v.last()) && vec_rel::<P>(ls, (n - 1) as nat, v.drop_last()) }
        else { vec_rel::<P>(ls, (n - 1) as nat, v) }
    }
    /// v has the values of each of the first n lines that has that name, in order
    #[verifier::opaque]
    pub open spec fn list_rel<T, P: Prop<V = Vec<T>>>(ls: Seq<ContentLine>, n: nat, v: Seq<T>) -> bool decreases n {
        if n == 0 { v.len() == 0 }
        else if named::<P>(ls[n - 1]) { exists|w: Seq<T>, c: Vec<T>| #[trigger] some_vals(w) && list_rel::<T, P>(ls, (n - 1) as nat, w) && #[trigger] P::ok(ls[n - 1], c) && v == w + c@ }
        else { list_rel::<T, P>(ls, (n - 1) as nat, v) }
    }
    /// the last of the first n lines of each name that is kept
    pub open spec fn others(ls: Seq<ContentLine>, n: nat, keep: spec_fn(Seq<char>) -> bool) -> Map<Seq<char>, ContentLine> decreases n {
        if n == 0 { Map::empty() }
        else if keep(ls[n - 1].key@) { others(ls, (n - 1) as nat, keep).insert(ls[n - 1].key@, ls[n - 1]) }
        else { others(ls, (n - 1) as nat, keep) }
    }
    pub broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T)
        ensures #[trigger] s.push(x).drop_last() == s
    { assert(s.push(x).drop_last() =~= s); }
    // one line more
    pub broadcast proof fn lemma_opt_none<P: Prop>(ls: Seq<ContentLine>, v: Option<P::V>)
        ensures #[trigger] opt_rel::<P>(ls, 0, v) == (v is None)
    { reveal(opt_rel); }
    pub broadcast proof fn lemma_vec_none<P: Prop>(ls: Seq<ContentLine>, v: Seq<P::V>)
        ensures #[trigger] vec_rel::<P>(ls, 0, v) == (v.len() == 0)
    { reveal(vec_rel); }
    pub broadcast proof fn lemma_list_none<T, P: Prop<V = Vec<T>>>(ls: Seq<ContentLine>, v: Seq<T>)
        ensures #[trigger] list_rel::<T, P>(ls, 0, v) == (v.len() == 0)
    { reveal(list_rel); }
    pub broadcast proof fn lemma_opt_next<P: Prop>(ls: Seq<ContentLine>, n: nat, v: Option<P::V>, m: nat, w: Option<P::V>)
        requires m == n + 1, n < ls.len(), #[trigger] opt_rel::<P>(ls, n, v),
            if named::<P>(ls[n as int]) { w is Some && P::ok(ls[n as int], w->0) } else { w == v },
        ensures #[trigger] opt_rel::<P>(ls, m, w)
    { reveal(opt_rel); assert(some_of(v)); }
    pub broadcast proof fn lemma_vec_next<P: Prop>(ls: Seq<ContentLine>, n: nat, v: Seq<P::V>, m: nat, w: Seq<P::V>)
        requires m == n + 1, n < ls.len(), #[trigger] vec_rel::<P>(ls, n, v),
            if named::<P>(ls[n as int]) { w.len() > 0 && P::ok(ls[n as int], w.last()) && w.drop_last() == v } else { w == v },
        ensures #[trigger] vec_rel::<P>(ls, m, w)
    { reveal(vec_rel); }
    pub broadcast proof fn lemma_list_next<T, P: Prop<V = Vec<T>>>(ls: Seq<ContentLine>, n: nat, v: Seq<T>, m: nat, w: Seq<T>)
        requires m == n + 1, n < ls.len(), #[trigger] list_rel::<T, P>(ls, n, v),
            if named::<P>(ls[n as int]) { exists|c: Vec<T>| #[trigger] P::ok(ls[n as int], c) && w == v + c@ } else { w == v },
        ensures #[trigger] list_rel::<T, P>(ls, m, w)
    {
        reveal(list_rel); assert((m - 1) as nat == n); assert(list_rel::<T, P>(ls, (m - 1) as nat, v)); assert(ls[m - 1] == ls[n as int]);
        if named::<P>(ls[n as int]) {
            let c = choose|c: Vec<T>| #[trigger] P::ok(ls[n as int], c) && w == v + c@;
            assert(some_vals(v) && P::ok(ls[m - 1], c) && list_rel::<T, P>(ls, (m - 1) as nat, v) && w == v + c@);
        }
    }
    pub broadcast group group_rlines { lemma_push_drop, lemma_opt_none, lemma_vec_none, lemma_list_none, lemma_opt_next, lemma_vec_next, lemma_list_next }
}
