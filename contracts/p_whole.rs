// A component among others, written and read again.
pub mod whole {
    use vstd::prelude::*;
    use crate::ser::*;
    use crate::lines::*;
    use crate::grammar::*;
    use crate::again::*;
    use crate::glue::lines_of;
    use crate::nest::*;
    use crate::round::*;
    use crate::ContentLine;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11
    pub trait Shape: Piece {
        spec fn fits(&self) -> bool;
        spec fn alike(&self, o: &Self) -> bool;
        /// the lines it is written as
        spec fn shows(&self) -> Texts;
    }
    pub trait Whole: Shape {
        proof fn lines_solid(x: Self)
            requires x.fits()
            ensures all_solid(x.shows());
        proof fn no_line(x: Self, rest: Seq<char>)
            requires x.fits()
            ensures g_line(ended(x.shows()) + rest) is None;
        /// what is written is read, up to its end
        proof fn round(x: Self, rest: Seq<char>)
            requires x.fits()
            ensures !Self::none(ended(x.shows()) + rest),
                forall|t: Seq<char>, v: Self| #[trigger] Self::at(ended(x.shows()) + rest, t, v) ==> t == rest && x.alike(&v);
        /// the end of another component is none
        proof fn not_end(n: Seq<char>, rest: Seq<char>)
            ensures forall|t: Seq<char>, v: Self| !#[trigger] Self::at(closes(n) + rest, t, v);
    }
    /// components that start with a line of their own
    pub trait Titled: Shape {
        spec fn title() -> Seq<char>;
        proof fn title_ok() ensures bare(Self::title());
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self)
            requires Self::at(i, t, v)
            ensures after(i, opens(Self::title())) is Some;
        proof fn opens_with(x: Self, rest: Seq<char>)
            requires x.fits()
            ensures after(ended(x.shows()) + rest, opens(Self::title())) is Some;
    }
    /// one kind is not taken for another
    pub proof fn lemma_other<A: Titled, B: Titled>(x: A, rest: Seq<char>)
        requires x.fits(), A::title() != B::title()
        ensures forall|t: Seq<char>, v: B| !#[trigger] B::at(ended(x.shows()) + rest, t, v)
    {
        let i = ended(x.shows()) + rest;
        A::title_ok(); B::title_ok();
        A::opens_with(x, rest);
        assert forall|t: Seq<char>, v: B| !#[trigger] B::at(i, t, v) by { if B::at(i, t, v) { B::opened(i, t, v); lemma_one_title(i, A::title(), B::title()); } }
    }
    pub proof fn lemma_not_end<B: Titled>(n: Seq<char>, rest: Seq<char>)
        ensures forall|t: Seq<char>, v: B| !#[trigger] B::at(closes(n) + rest, t, v)
    {
        lemma_closes(n, rest);
        assert forall|t: Seq<char>, v: B| !#[trigger] B::at(closes(n) + rest, t, v) by { if B::at(closes(n) + rest, t, v) { B::opened(closes(n) + rest, t, v); } }
    }
    pub open spec fn wholes<O: Whole>(xs: Seq<O>) -> Texts decreases xs.len() { if xs.len() == 0 { Seq::empty() } else { xs[0].shows() + wholes(xs.skip(1)) } }
    pub open spec fn all_fits<O: Whole>(xs: Seq<O>) -> bool { forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).fits() }
    pub open spec fn all_alike<O: Whole>(xs: Seq<O>, vs: Seq<O>) -> bool { xs.len() == vs.len() && forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).alike(&vs[k]) }
    proof fn lemma_skip<O: Whole>(xs: Seq<O>)
        requires all_fits(xs), xs.len() > 0
        ensures all_fits(xs.skip(1)), xs[0].fits()
    { assert forall|k: int| 0 <= k < xs.skip(1).len() implies (#[trigger] xs.skip(1)[k]).fits() by { assert(xs.skip(1)[k] == xs[k + 1]); } }
    pub proof fn lemma_wholes_solid<O: Whole>(xs: Seq<O>)
        requires all_fits(xs)
        ensures all_solid(wholes(xs))
        decreases xs.len()
    { if xs.len() > 0 { lemma_skip(xs); lemma_wholes_solid(xs.skip(1)); O::lines_solid(xs[0]); } }
    pub proof fn lemma_wholes_add<O: Whole>(a: Seq<O>, b: Seq<O>)
        ensures wholes(a + b) == wholes(a) + wholes(b)
        decreases a.len()
    {
        if a.len() == 0 { assert(a + b =~= b); assert(wholes(a) + wholes(b) =~= wholes(b)); } else {
            lemma_wholes_add(a.skip(1), b);
            assert((a + b).skip(1) =~= a.skip(1) + b);
            assert(wholes(a + b) =~= wholes(a) + wholes(b));
        }
    }
    /// components given as another kind are written alike
    pub proof fn lemma_wrapped<A: Whole, B: Whole>(xs: Seq<A>, ys: Seq<B>)
        requires xs.len() == ys.len(), forall|k: int| 0 <= k < xs.len() ==> (#[trigger] ys[k]).shows() == xs[k].shows()
        ensures wholes(xs) == wholes(ys)
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(ys[0].shows() == xs[0].shows());
            assert forall|k: int| 0 <= k < xs.skip(1).len() implies (#[trigger] ys.skip(1)[k]).shows() == xs.skip(1)[k].shows() by { assert(ys.skip(1)[k] == ys[k + 1]); assert(xs.skip(1)[k] == xs[k + 1]); }
            lemma_wrapped(xs.skip(1), ys.skip(1));
        }
    }
    /// as a field
    pub proof fn lemma_subs<O: Whole + Serialize>(l: Texts, name: Seq<char>, xs: Seq<O>, n: nat)
        requires n <= xs.len(), O::comp() is Some, forall|x: O| #[trigger] x.shows() == x.lines()
        ensures each_from(l, name, xs, n) == app(l, wholes(xs.take(n as int)))
        decreases n
    {
        reveal(app);
        if n == 0 { assert(xs.take(0).len() == 0); assert(l + Seq::<Seq<char>>::empty() =~= l); } else {
            lemma_subs(l, name, xs, (n - 1) as nat);
            let (a, b) = (xs.take(n - 1), seq![xs[n - 1]]);
            assert(xs.take(n as int) =~= a + b);
            lemma_wholes_add(a, b);
            assert(b.skip(1).len() == 0);
            assert(wholes(b.skip(1)) =~= Seq::empty());
            assert(b[0] == xs[n - 1]);
            assert(xs[n - 1].shows() == xs[n - 1].lines());
            assert(wholes(b) =~= xs[n - 1].lines());
            assert(l + wholes(a) + xs[n - 1].lines() =~= l + (wholes(a) + wholes(b)));
        }
    }
    pub proof fn lemma_repeated_back<O: Whole>(xs: Seq<O>, e: Seq<char>, u: Seq<char>, vs: Seq<O>)
        requires all_fits(xs), forall|t: Seq<char>, v: O| !#[trigger] O::at(e, t, v), repeated(ended(wholes(xs)) + e, u, vs), O::none(u)
        ensures u == e, all_alike(xs, vs)
        decreases xs.len()
    {
        let i = ended(wholes(xs)) + e;
        if xs.len() == 0 {
            assert(i =~= e);
            if vs.len() > 0 { let m = choose|m: Seq<char>| #[trigger] O::at(i, m, vs[0]) && repeated(m, u, vs.skip(1)); assert(false); }
        } else {
            lemma_skip(xs);
            let r = ended(wholes(xs.skip(1))) + e;
            lemma_ended_add(xs[0].shows(), wholes(xs.skip(1)));
            assert(i =~= ended(xs[0].shows()) + r);
            O::round(xs[0], r);
            if vs.len() == 0 { assert(false); }
            let m = choose|m: Seq<char>| #[trigger] O::at(i, m, vs[0]) && repeated(m, u, vs.skip(1));
            assert(m == r);
            lemma_repeated_back(xs.skip(1), e, u, vs.skip(1));
            assert forall|k: int| 0 <= k < xs.len() implies (#[trigger] xs[k]).alike(&vs[k]) by { if k > 0 { assert(xs.skip(1)[k - 1].alike(&vs.skip(1)[k - 1])); } }
        }
    }
    pub proof fn lemma_wholes_no_line<O: Whole>(xs: Seq<O>, n: Seq<char>, rest: Seq<char>)
        requires all_fits(xs)
        ensures g_line(ended(wholes(xs)) + (closes(n) + rest)) is None
    {
        let e = closes(n) + rest;
        lemma_closes(n, rest);
        if xs.len() == 0 { assert(ended(wholes(xs)) + e =~= e); } else {
            lemma_skip(xs);
            lemma_ended_add(xs[0].shows(), wholes(xs.skip(1)));
            let r = ended(wholes(xs.skip(1))) + e;
            assert(ended(wholes(xs)) + e =~= ended(xs[0].shows()) + r);
            O::no_line(xs[0], r);
        }
    }
    /// a component with components of its own
    pub proof fn lemma_nest_back<O: Whole>(n: Seq<char>, close: Seq<char>, body: Texts, rs: Lines, xs: Seq<O>, rest: Seq<char>)
        requires all_shown(body, rs), all_fits(xs), after(closes(n) + rest, close) is Some
        ensures ({
            let i = blocktext(n, body, wholes(xs)) + rest;
            &&& after(i, opens(n)) is Some
            &&& !no_nested::<O>(opens(n), close, i)
            &&& forall|t: Seq<char>, ls: Seq<ContentLine>, vs: Seq<O>| #[trigger] nested(opens(n), close, i, t, ls, vs) ==> Some(t) == after(closes(n) + rest, close) && lines_of(ls) == rs && all_alike(xs, vs)
            &&& forall|ls: Seq<ContentLine>| #[trigger] nests::<O>(opens(n), close, i, ls) ==> lines_of(ls) == rs
        })
    {
        let i = blocktext(n, body, wholes(xs)) + rest;
        let e = closes(n) + rest;
        let w = ended(wholes(xs)) + e;
        assert(i =~= opens(n) + (ended(body) + w));
        lemma_opens(n, ended(body) + w);
        lemma_wholes_no_line(xs, n, rest);
        lemma_all(body, rs, w);
        let t = ended(body) + w;
        assert(after(i, opens(n)) == Some(t));
        assert(g_lines(t) == (rs, w));
        O::not_end(n, rest);
        assert forall|u: Seq<char>, vs: Seq<O>| #[trigger] repeated(w, u, vs) && O::none(u) implies u == e && all_alike(xs, vs) by { lemma_repeated_back(xs, e, u, vs); }
        lemma_nest_end::<O>(opens(n), close, i, t, rs, w, e, xs);
    }
    proof fn lemma_nest_end<O: Whole>(open: Seq<char>, close: Seq<char>, i: Seq<char>, t: Seq<char>, rs: Lines, w: Seq<char>, e: Seq<char>, xs: Seq<O>)
        requires after(i, open) == Some(t), g_lines(t) == (rs, w), after(e, close) is Some,
            forall|u: Seq<char>, vs: Seq<O>| #[trigger] repeated(w, u, vs) && O::none(u) ==> u == e && all_alike(xs, vs),
        ensures !no_nested::<O>(open, close, i),
            forall|r: Seq<char>, ls: Seq<ContentLine>, vs: Seq<O>| #[trigger] nested(open, close, i, r, ls, vs) ==> Some(r) == after(e, close) && lines_of(ls) == rs && all_alike(xs, vs),
            forall|ls: Seq<ContentLine>| #[trigger] nests::<O>(open, close, i, ls) ==> lines_of(ls) == rs,
    { reveal(nested); reveal(nests); reveal(no_nested); }
    pub proof fn lemma_marks_solid(n: Seq<char>)
        requires bare(n)
        ensures solid(begins(n)), solid("END:"@ + n)
    {
        reveal_strlit("BEGIN:"); reveal_strlit("END:");
        let (a, b) = (begins(n), "END:"@ + n);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] != '\r' && a[k] != '\n' by { if k >= 6 { assert(a[k] == n[k - 6]); } }
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] != '\r' && b[k] != '\n' by { if k >= 4 { assert(b[k] == n[k - 4]); } }
    }
    pub proof fn lemma_shown_solid(ls: Texts, rs: Lines)
        requires all_shown(ls, rs)
        ensures all_solid(ls)
    { assert forall|k: int| 0 <= k < ls.len() implies solid(#[trigger] ls[k]) by { assert(shown(ls[k], rs[k])); } }
    /// the lines of a component: property lines l, then those of its components
    pub open spec fn closed(n: Seq<char>, l: Texts, subs: Texts) -> Texts { app(app(l, subs), seq!["END:"@ + n]) }
    proof fn lemma_closed<T: Form>(n: Seq<char>, l: Texts, fs: Seq<Lines>, subs: Texts, rest: Seq<char>)
        requires bare(n), grown::<T>(l, n, fs, fs.len() as int), all_solid(subs)
        ensures all_solid(closed(n, l, subs)), all_shown(l.skip(1), flat_lines(fs)),
            ended(closed(n, l, subs)) == blocktext(n, l.skip(1), subs),
            g_line(ended(closed(n, l, subs)) + rest) is None, after(ended(closed(n, l, subs)) + rest, opens(n)) is Some,
    {
        reveal(app);
        lemma_closes(n, rest);
        lemma_body::<T>(l, n, fs, closes(n) + rest);
        lemma_whole(n, l, subs);
        lemma_marks_solid(n);
        let b = l.skip(1);
        lemma_shown_solid(b, flat_lines(fs));
        let c = closed(n, l, subs);
        assert(c =~= l + subs + seq!["END:"@ + n]);
        assert forall|k: int| 0 <= k < c.len() implies solid(#[trigger] c[k]) by {
            if k == 0 { assert(c[0] == begins(n)); } else if k < l.len() { assert(c[k] == b[k - 1]); } else if k < l.len() + subs.len() { assert(c[k] == subs[k - l.len()]); } else { assert(c[k] == "END:"@ + n); }
        }
        let t = ended(b) + (ended(subs) + closes(n)) + rest;
        assert(ended(c) + rest =~= opens(n) + t);
        lemma_opens(n, t);
    }
    pub proof fn lemma_simple<T: Form>(n: Seq<char>, l: Texts, fs: Seq<Lines>, rest: Seq<char>)
        requires bare(n), grown::<T>(l, n, fs, fs.len() as int)
        ensures ({
            let c = app(l, seq!["END:"@ + n]);
            let i = ended(c) + rest;
            &&& all_solid(c) && g_line(i) is None && after(i, opens(n)) is Some && !no_block(n, i)
            &&& forall|t: Seq<char>, ls: Seq<ContentLine>| #[trigger] block(n, i, t, ls) ==> t == rest && lines_of(ls) == flat_lines(fs)
            &&& forall|ls: Seq<ContentLine>| #[trigger] blocked(n, i, ls) ==> lines_of(ls) == flat_lines(fs)
        })
    {
        let none = Seq::<Seq<char>>::empty();
        assert(app(l, none) == l) by { reveal(app); assert(l + none =~= l); }
        lemma_closed::<T>(n, l, fs, none, rest);
        lemma_block(n, l.skip(1), flat_lines(fs), rest);
    }
    pub proof fn lemma_nesting<T: Form, O: Whole>(n: Seq<char>, close: Seq<char>, l: Texts, fs: Seq<Lines>, xs: Seq<O>, rest: Seq<char>)
        requires bare(n), grown::<T>(l, n, fs, fs.len() as int), all_fits(xs), after(closes(n) + rest, close) is Some
        ensures ({
            let c = closed(n, l, wholes(xs));
            let i = ended(c) + rest;
            &&& all_solid(c) && g_line(i) is None && after(i, opens(n)) is Some && !no_nested::<O>(opens(n), close, i)
            &&& forall|t: Seq<char>, ls: Seq<ContentLine>, vs: Seq<O>| #[trigger] nested(opens(n), close, i, t, ls, vs) ==> Some(t) == after(closes(n) + rest, close) && lines_of(ls) == flat_lines(fs) && all_alike(xs, vs)
            &&& forall|ls: Seq<ContentLine>| #[trigger] nests::<O>(opens(n), close, i, ls) ==> lines_of(ls) == flat_lines(fs)
        })
    {
        lemma_wholes_solid(xs);
        lemma_closed::<T>(n, l, fs, wholes(xs), rest);
        lemma_nest_back(n, close, l.skip(1), flat_lines(fs), xs, rest);
    }
    /// the same lines under another title
    pub proof fn lemma_relabelled<T: Form>(a: Seq<char>, b: Seq<char>, l: Texts, fs: Seq<Lines>)
        requires grown::<T>(l, a, fs, fs.len() as int)
        ensures l.len() > 0, grown::<T>(l.update(0, begins(b)), b, fs, fs.len() as int)
    { reveal(grown); assert(l.update(0, begins(b)).skip(1) =~= l.skip(1)); }
}
