// A generic alarm is written as its own lines between BEGIN:VALARM and END:VALARM.
pub mod walarm {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{has, joined, blen};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    //@ rename split vx_split
    //@ rename join vx_join
    //@ props C10,C18,C11
    /// the same lines, marked as VALARM
    pub open spec fn as_valarm(l: Seq<Seq<char>>) -> Seq<Seq<char>> {
        seq!["BEGIN:"@ + "VALARM"@] + l.subrange(1, l.len() - 1) + seq!["END:"@ + "VALARM"@]
    }
    pub open spec fn nl() -> Seq<char> { seq!['\n'] }
    pub open spec fn no_nl(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '\n' }
    pub proof fn lemma_no_nl(s: Seq<char>)
        requires has(s, nl()) == false
        ensures no_nl(s)
    {
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\n' by {
            if s[k] == '\n' { assert(s.skip(k).take(1) =~= nl()); assert(nl().is_prefix_of(s.skip(k))); }
        }
    }
    pub open spec fn segs(v: Seq<&str>) -> bool { v.len() > 0 && forall|k: int| 0 <= k < v.len() ==> no_nl((#[trigger] v[k])@) }
    pub proof fn lemma_joined_step(v: Seq<&str>)
        requires v.len() > 1
        ensures joined(v, nl()) == joined(v.drop_last(), nl()) + nl() + v.last()@
    { }
    /// the last segment
    pub proof fn lemma_last(v: Seq<&str>, u: Seq<char>, e: Seq<char>)
        requires segs(v), joined(v, nl()) == u + nl() + e, no_nl(e)
        ensures v.len() > 1, v.last()@ == e, joined(v.drop_last(), nl()) == u, segs(v.drop_last())
    {
        let j = joined(v, nl());
        assert(j[u.len() as int] == '\n');
        if v.len() == 1 { assert(no_nl(v[0]@)); assert(j == v[0]@); assert(false); }
        lemma_joined_step(v);
        let w = joined(v.drop_last(), nl());
        let l = v.last()@;
        assert(no_nl(v[v.len() - 1]@));
        assert(j[w.len() as int] == '\n');
        assert(j.len() == u.len() + 1 + e.len() == w.len() + 1 + l.len());
        if w.len() > u.len() { assert(e[w.len() - u.len() - 1] == j[w.len() as int]); assert(false); }
        if w.len() < u.len() { assert(l[u.len() - w.len() - 1] == j[u.len() as int]); assert(false); }
        assert(l =~= e) by { assert forall|k: int| 0 <= k < e.len() implies l[k] == e[k] by { assert(j[u.len() + 1 + k] == e[k]); assert(j[w.len() + 1 + k] == l[k]); } }
        assert(w =~= u) by { assert forall|k: int| 0 <= k < u.len() implies w[k] == u[k] by { assert(j[k] == u[k]); assert(j[k] == w[k]); } }
        assert forall|k: int| 0 <= k < v.drop_last().len() implies no_nl((#[trigger] v.drop_last()[k])@) by { assert(v.drop_last()[k] == v[k]); }
    }
    /// the first segment, and what follows when it is replaced
    pub proof fn lemma_first(v: Seq<&str>, h: Seq<char>, t: Seq<char>, x: &str)
        requires segs(v), joined(v, nl()) == h + t, no_nl(h), t.len() > 0 ==> t[0] == '\n'
        ensures joined(v.update(0, x), nl()) == x@ + t
        decreases v.len()
    {
        let j = joined(v, nl());
        let v2 = v.update(0, x);
        if v.len() == 1 {
            assert(no_nl(v[0]@));
            if t.len() > 0 { assert(j[h.len() as int] == '\n'); assert(false); }
            assert(t =~= Seq::<char>::empty());
            assert(joined(v2, nl()) == x@);
            assert(x@ + t =~= x@);
        } else {
            lemma_joined_step(v);
            let w = joined(v.drop_last(), nl());
            let l = v.last()@;
            assert(v2.drop_last() =~= v.drop_last().update(0, x));
            lemma_joined_step(v2);
            assert forall|k: int| 0 <= k < v.drop_last().len() implies no_nl((#[trigger] v.drop_last()[k])@) by { assert(v.drop_last()[k] == v[k]); }
            assert(j[w.len() as int] == '\n');
            if h.len() > w.len() { assert(h[w.len() as int] == j[w.len() as int]); assert(false); }
            let t2 = w.skip(h.len() as int);
            assert(w =~= h + t2) by { assert forall|k: int| 0 <= k < h.len() implies w[k] == h[k] by { assert(j[k] == h[k]); assert(j[k] == w[k]); } }
            if t2.len() > 0 { assert(t2[0] == j[h.len() as int]); assert(j[h.len() as int] == t[0]); }
            lemma_first(v.drop_last(), h, t2, x);
            assert(t =~= t2 + nl() + l) by {
                assert(j.len() == h.len() + t.len());
                assert forall|k: int| 0 <= k < t.len() implies t[k] == (t2 + nl() + l)[k] by { assert(j[h.len() + k] == t[k]); }
            }
            assert(joined(v2, nl()) =~= x@ + t);
        }
    }
    /// the text of a component: its BEGIN line, the others and its END line
    pub proof fn lemma_inner(s: Seq<char>, l: Seq<Seq<char>>) -> (m: Seq<char>)
        requires writes(s, l), l.len() >= 2, blen(l[0]) <= 75, blen(l.last()) <= 75
        ensures s == l[0] + "\r\n"@ + m + l.last() + "\r\n"@, writes(m, l.subrange(1, l.len() - 1)), m.len() > 0 ==> m.last() == '\n'
    {
        reveal_strlit("\r\n");
        let xs = choose|xs: Seq<Seq<char>>| #[trigger] folds(xs, l) && s == cat(xs);
        let n = l.len() as int;
        let mid = xs.subrange(1, n - 1);
        let m = cat(mid);
        assert(fold_ok(xs[0], l[0]));
        assert(fold_ok(xs[n - 1], l[n - 1]));
        assert(xs =~= seq![xs[0]] + mid + seq![xs[n - 1]]);
        lemma_cat_append(seq![xs[0]] + mid, seq![xs[n - 1]]);
        lemma_cat_append(seq![xs[0]], mid);
        lemma_cat_one(xs[0]); lemma_cat_one(xs[n - 1]);
        assert(s =~= l[0] + "\r\n"@ + m + l.last() + "\r\n"@);
        let lm = l.subrange(1, n - 1);
        assert forall|k: int| 0 <= k < mid.len() implies #[trigger] fold_ok(mid[k], lm[k]) by { assert(fold_ok(xs[k + 1], l[k + 1])); }
        assert(folds(mid, lm));
        if mid.len() > 0 {
            let z = mid.last();
            assert(fold_ok(mid[mid.len() - 1], lm[mid.len() - 1]));
            assert(z.last() == '\n');
            assert(m =~= cat(mid.drop_last()) + z);
        }
        m
    }
    pub proof fn lemma_cat_one(x: Seq<char>) ensures cat(seq![x]) == x
    {
        assert(seq![x].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(cat(seq![x].drop_last()) =~= Seq::<char>::empty());
        assert(cat(seq![x]) =~= x);
    }
    pub proof fn lemma_relabel(s: Seq<char>, l: Seq<Seq<char>>, name: Seq<char>, v: Seq<&str>, b: &str, e: &str)
        requires writes(s, l), l.len() >= 2, l[0] == "BEGIN:"@ + name, l.last() == "END:"@ + name, name.len() <= 12, no_nl(name),
            segs(v), joined(v, nl()) == s, b@ == "BEGIN:VALARM\r"@, e@ == "END:VALARM\r\n"@
        ensures v.len() >= 3, writes(joined(v.update(0, b).drop_last().drop_last().push(e), nl()), as_valarm(l))
    {
        reveal_strlit("BEGIN:"); reveal_strlit("END:"); reveal_strlit("VALARM"); reveal_strlit("\r\n"); reveal_strlit("BEGIN:VALARM\r"); reveal_strlit("END:VALARM\r\n");
        lemma_blen_pos(l[0]); lemma_blen_pos(l.last());
        let m = lemma_inner(s, l);
        let n = l.len() as int;
        // text = h "\n" m end "\r" "\n"
        let h = l[0] + seq!['\r'];
        let end = l.last() + seq!['\r'];
        let e0 = Seq::<char>::empty();
        let u1 = h + nl() + m + end;
        assert(no_nl(end)); assert(no_nl(h));
        assert(s =~= u1 + nl() + e0);
        lemma_last(v, u1, e0);
        let v1 = v.drop_last();
        // u1 = (h + "\n" + m without its last "\n") "\n" end
        let t = if m.len() > 0 { nl() + m.drop_last() } else { e0 };
        assert(u1 =~= (h + t) + nl() + end) by { if m.len() > 0 { assert(m =~= m.drop_last() + nl()); } }
        lemma_last(v1, h + t, end);
        let v2 = v1.drop_last();
        lemma_first(v2, h, t, b);
        let w = v2.update(0, b);
        assert(v.update(0, b).drop_last().drop_last() =~= w);
        let r = w.push(e);
        assert(r.drop_last() =~= w);
        lemma_joined_step(r);
        let out = joined(r, nl());
        assert(out == (b@ + t) + nl() + e@);
        let bl = "BEGIN:"@ + "VALARM"@;
        let el = "END:"@ + "VALARM"@;
        lemma_blen_pos(bl); lemma_blen_pos(el);
        assert(fold_ok(bl + "\r\n"@, bl));
        assert(fold_ok(el + "\r\n"@, el));
        lemma_writes_one(bl + "\r\n"@, bl);
        lemma_writes_one(el + "\r\n"@, el);
        lemma_writes_append(bl + "\r\n"@, seq![bl], m, l.subrange(1, n - 1));
        lemma_writes_append(bl + "\r\n"@ + m, seq![bl] + l.subrange(1, n - 1), el + "\r\n"@, seq![el]);
        assert(b@ =~= bl + seq!['\r']);
        assert(e@ =~= el + "\r\n"@);
        assert(out =~= bl + "\r\n"@ + m + (el + "\r\n"@)) by {
            assert(nl() + t =~= nl() + t);
            if m.len() > 0 { assert(m =~= m.drop_last() + nl()); }
        }
    }
    pub open spec fn inner(a: VAlarm) -> Seq<Seq<char>> {
        match a { VAlarm::Audio(a) => a.lines(), VAlarm::Display(a) => a.lines(), VAlarm::Email(a) => a.lines() }
    }
    pub open spec fn name_of(a: VAlarm) -> Seq<char> {
        match a { VAlarm::Audio(_) => "AUDIO"@, VAlarm::Display(_) => "DISPLAY"@, VAlarm::Email(_) => "EMAIL"@ }
    }
    pub proof fn lemma_shape(a: VAlarm)
        ensures inner(a).len() >= 2, inner(a)[0] == "BEGIN:"@ + name_of(a), inner(a).last() == "END:"@ + name_of(a), name_of(a).len() <= 12, no_nl(name_of(a))
    {
        reveal_strlit("AUDIO"); reveal_strlit("DISPLAY"); reveal_strlit("EMAIL");
        match a {
            VAlarm::Audio(x) => { x.lemma_begin(); }
            VAlarm::Display(x) => { x.lemma_begin(); }
            VAlarm::Email(x) => { x.lemma_begin(); }
        }
    }
    //@ impl crate::components::valarm | Serialize for VAlarm
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("VALARM"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// its own property lines, in one VALARM block
    open spec fn lines(&self) -> Seq<Seq<char>> { as_valarm(inner(*self)) }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ head
        proof { lemma_shape(*self); reveal_strlit("\n"); assert("\n"@ =~= nl()); }
    //@ before lines[0] =
        let ghost v = lines@;
        proof {
            assert forall|k: int| 0 <= k < v.len() implies no_nl((#[trigger] v[k])@) by { lemma_no_nl(v[k]@); }
            lemma_relabel(s@, inner(*self), name_of(*self), v, "BEGIN:VALARM\r", "END:VALARM\r\n");
        }
    //@ end
    //@ endimpl
    //@ norename split
    //@ norename join
    //@ props C18,C11
    impl vstd::std_specs::convert::FromSpecImpl<Audio> for VAlarm {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: Audio) -> VAlarm { arbitrary() }
    }
    //@ impl crate::components::valarm | From<Audio> for VAlarm
    //@ method from
    //@ ret r
        ensures match r { VAlarm::Audio(a) => a == (Audio { action: a.action, ..value }) && a.action.text@ == "AUDIO"@ && a.action.params@.len() == 0, _ => false }
    //@ end
    //@ endimpl
    impl vstd::std_specs::convert::FromSpecImpl<Display> for VAlarm {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: Display) -> VAlarm { arbitrary() }
    }
    //@ impl crate::components::valarm | From<Display> for VAlarm
    //@ method from
    //@ ret r
        ensures match r { VAlarm::Display(a) => a == (Display { action: a.action, ..value }) && a.action.text@ == "DISPLAY"@ && a.action.params@.len() == 0, _ => false }
    //@ end
    //@ endimpl
    impl vstd::std_specs::convert::FromSpecImpl<Email> for VAlarm {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: Email) -> VAlarm { arbitrary() }
    }
    //@ impl crate::components::valarm | From<Email> for VAlarm
    //@ method from
    //@ ret r
        ensures match r { VAlarm::Email(a) => a == (Email { action: a.action, ..value }) && a.action.text@ == "EMAIL"@ && a.action.params@.len() == 0, _ => false }
    //@ end
    //@ endimpl
    //@ props
}
