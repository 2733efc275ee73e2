//@ rename contains vx_contains
//@ props C13,C14
pub mod iter {
    use vstd::prelude::*;
    use core::cmp::Ordering;
    use vstd::std_specs::convert::*;
    use crate::xstd::iter::*;
    use crate::properties::date::{date_cmp, same_kind, lemma_cmp_trans, lemma_cmp_rev};
    use crate::properties::recur::{step, lemma_step_up, pos, pos_max};
    use crate::chrono;
    use crate::{VEvent, VJournal, VTodo};
    use crate::chrono::{y4, NaiveDate};
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};

    pub open spec fn as_ref_of<'a, T>(o: Option<T>) -> Option<&'a T> { match o { Some(x) => Some(&x), None => None } }
    //@ trait crate::iter::Recurring
        /// the start, end, due date, excluded dates and rule of a component that may recur
        spec fn v_start(&self) -> Option<crate::Date>;
        spec fn v_end(&self) -> Option<crate::Date>;
        spec fn v_due(&self) -> Option<crate::Date>;
        spec fn v_ex(&self) -> Seq<crate::Date>;
        spec fn v_rule(&self) -> Option<crate::Recur>;
        /// the same component with one of them changed
        spec fn with_start(&self, d: crate::Date) -> Self;
        spec fn with_end(&self, d: crate::Date) -> Self;
        spec fn with_due(&self, d: crate::Date) -> Self;
        spec fn with_rule(&self, r: crate::Recur) -> Self;
        proof fn laws(x: Self, d: crate::Date, r: crate::Recur)
            ensures
                x.v_start() is Some ==> x.with_start(d).v_start() == Some(d), x.with_start(d).v_end() == x.v_end(), x.with_start(d).v_due() == x.v_due(), x.with_start(d).v_ex() == x.v_ex(), x.with_start(d).v_rule() == x.v_rule(),
                x.v_end() is Some ==> x.with_end(d).v_end() == Some(d), x.with_end(d).v_start() == x.v_start(), x.with_end(d).v_due() == x.v_due(), x.with_end(d).v_ex() == x.v_ex(), x.with_end(d).v_rule() == x.v_rule(),
                x.v_due() is Some ==> x.with_due(d).v_due() == Some(d), x.with_due(d).v_start() == x.v_start(), x.with_due(d).v_end() == x.v_end(), x.with_due(d).v_ex() == x.v_ex(), x.with_due(d).v_rule() == x.v_rule(),
                x.with_rule(r).v_rule() == Some(r), x.with_rule(r).v_start() == x.v_start(), x.with_rule(r).v_end() == x.v_end(), x.with_rule(r).v_due() == x.v_due(), x.with_rule(r).v_ex() == x.v_ex(),
                x.with_rule(r).with_rule(r) == x.with_rule(r),
                forall|q: crate::Recur| #[trigger] x.with_rule(q).with_rule(r) == x.with_rule(r);
        proof fn law_clone(x: Self)
            ensures forall|y: Self| call_ensures(<Self as Clone>::clone, (&x,), y) ==> x == y;
    //@ method dtstart
    //@ decl
    //@ ret r
        ensures r == as_ref_of(self.v_start())
    //@ end
    //@ method exdate
    //@ ret r
        ensures r@ == self.v_ex()
    //@ end
    //@ method set_dtstart
    //@ decl
        ensures *final(self) == old(self).with_start(_dtstart)
    //@ end
    //@ method dtend
    //@ decl
    //@ ret r
        ensures r == as_ref_of(self.v_end())
    //@ end
    //@ method set_dtend
    //@ decl
        ensures *final(self) == old(self).with_end(_dtend)
    //@ end
    //@ method due
    //@ decl
    //@ ret r
        ensures r == as_ref_of(self.v_due())
    //@ end
    //@ method set_due
    //@ decl
        ensures *final(self) == old(self).with_due(_dtend)
    //@ end
    //@ method rrule
    //@ ret r
        ensures r == as_ref_of(self.v_rule())
    //@ end
    //@ method set_rrule
        ensures *final(self) == old(self).with_rule(rrule)
    //@ end
    //@ endtrait

    //@ impl crate::iter | Recurring for crate::VEvent
    //@ inherit crate::iter::Recurring
    open spec fn v_start(&self) -> Option<crate::Date> { Some(self.dtstart) }
    open spec fn v_end(&self) -> Option<crate::Date> { self.dtend }
    open spec fn v_due(&self) -> Option<crate::Date> { None }
    open spec fn v_ex(&self) -> Seq<crate::Date> { self.exdate@ }
    open spec fn v_rule(&self) -> Option<crate::Recur> { self.rrule }
    open spec fn with_start(&self, d: crate::Date) -> Self { crate::VEvent { dtstart: d, ..*self } }
    open spec fn with_end(&self, d: crate::Date) -> Self { crate::VEvent { dtend: Some(d), ..*self } }
    open spec fn with_due(&self, d: crate::Date) -> Self { *self }
    open spec fn with_rule(&self, r: crate::Recur) -> Self { crate::VEvent { rrule: Some(r), ..*self } }
    proof fn laws(x: Self, d: crate::Date, r: crate::Recur) {}
    proof fn law_clone(x: Self) {}
    //@ method dtstart
    //@ keep
    //@ end
    //@ method exdate
    //@ keep
    //@ end
    //@ method set_dtstart
    //@ keep
    //@ end
    //@ method dtend
    //@ keep
    //@ end
    //@ method set_dtend
    //@ keep
    //@ end
    //@ method due
    //@ keep
    //@ end
    //@ method set_due
    //@ keep
    //@ end
    //@ method rrule
    //@ keep
    //@ end
    //@ method set_rrule
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::iter | Recurring for crate::VJournal
    //@ inherit crate::iter::Recurring
    open spec fn v_start(&self) -> Option<crate::Date> { Some(self.dtstart) }
    open spec fn v_end(&self) -> Option<crate::Date> { None }
    open spec fn v_due(&self) -> Option<crate::Date> { None }
    open spec fn v_ex(&self) -> Seq<crate::Date> { self.exdate@ }
    open spec fn v_rule(&self) -> Option<crate::Recur> { self.rrule }
    open spec fn with_start(&self, d: crate::Date) -> Self { crate::VJournal { dtstart: d, ..*self } }
    open spec fn with_end(&self, d: crate::Date) -> Self { *self }
    open spec fn with_due(&self, d: crate::Date) -> Self { *self }
    open spec fn with_rule(&self, r: crate::Recur) -> Self { crate::VJournal { rrule: Some(r), ..*self } }
    proof fn laws(x: Self, d: crate::Date, r: crate::Recur) {}
    proof fn law_clone(x: Self) {}
    //@ method dtstart
    //@ keep
    //@ end
    //@ method exdate
    //@ keep
    //@ end
    //@ method set_dtstart
    //@ keep
    //@ end
    //@ method dtend
    //@ keep
    //@ end
    //@ method set_dtend
    //@ keep
    //@ end
    //@ method due
    //@ keep
    //@ end
    //@ method set_due
    //@ keep
    //@ end
    //@ method rrule
    //@ keep
    //@ end
    //@ method set_rrule
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::iter | Recurring for crate::VTodo
    //@ inherit crate::iter::Recurring
    open spec fn v_start(&self) -> Option<crate::Date> { self.dtstart }
    open spec fn v_end(&self) -> Option<crate::Date> { None }
    open spec fn v_due(&self) -> Option<crate::Date> { self.due }
    open spec fn v_ex(&self) -> Seq<crate::Date> { self.exdate@ }
    open spec fn v_rule(&self) -> Option<crate::Recur> { self.rrule }
    open spec fn with_start(&self, d: crate::Date) -> Self { crate::VTodo { dtstart: Some(d), ..*self } }
    open spec fn with_end(&self, d: crate::Date) -> Self { *self }
    open spec fn with_due(&self, d: crate::Date) -> Self { crate::VTodo { due: Some(d), ..*self } }
    open spec fn with_rule(&self, r: crate::Recur) -> Self { crate::VTodo { rrule: Some(r), ..*self } }
    proof fn laws(x: Self, d: crate::Date, r: crate::Recur) {}
    proof fn law_clone(x: Self) {}
    //@ method dtstart
    //@ keep
    //@ end
    //@ method exdate
    //@ keep
    //@ end
    //@ method set_dtstart
    //@ keep
    //@ end
    //@ method dtend
    //@ keep
    //@ end
    //@ method set_dtend
    //@ keep
    //@ end
    //@ method due
    //@ keep
    //@ end
    //@ method set_due
    //@ keep
    //@ end
    //@ method rrule
    //@ keep
    //@ end
    //@ method set_rrule
    //@ keep
    //@ end
    //@ endimpl

    // ---- the occurrences of a component, one after the other ----
    pub open spec fn moved(r: crate::Recur, d: crate::Date) -> crate::Date { step(r.freq, r.interval as int, d) }
    /// without start or rule there is nothing to enumerate
    pub open spec fn recurs<T: Recurring>(x: T) -> bool { x.v_start() is Some && x.v_rule() is Some }
    /// starts after the day of UNTIL
    pub open spec fn past_until<T: Recurring>(x: T) -> bool {
        x.v_rule()->0.until matches Some(u) && x.v_start()->0.the_day().day() > u.the_day().day()
    }
    pub open spec fn exhausted<T: Recurring>(x: T) -> bool { x.v_rule()->0.count == Some(0u8) }
    /// the enumeration ends at x
    pub open spec fn ended<T: Recurring>(x: T) -> bool { !recurs(x) || past_until(x) || exhausted(x) }
    pub open spec fn excluded<T: Recurring>(x: T) -> bool { x.v_ex().contains(x.v_start()->0) }
    /// the rule, with one occurrence less to go
    pub open spec fn used(r: crate::Recur) -> crate::Recur {
        match r.count { Some(c) => crate::Recur { count: Some((c - 1) as u8), ..r }, None => r }
    }
    /// the next occurrence: start, end and due date moved by one step, the rest kept
    pub open spec fn succ<T: Recurring>(x: T) -> T {
        let r = x.v_rule()->0;
        let a = x.with_start(moved(r, x.v_start()->0));
        let b = match x.v_end() { Some(d) => a.with_end(moved(r, d)), None => a };
        let c = match x.v_due() { Some(d) => b.with_due(moved(r, d)), None => b };
        c.with_rule(used(r))
    }
    pub open spec fn nth<T: Recurring>(x: T, k: nat) -> T decreases k { if k == 0 { x } else { succ(nth(x, (k - 1) as nat)) } }
    /// every occurrence before the k-th is excluded
    pub open spec fn reach<T: Recurring>(x: T, k: nat) -> bool { forall|j: nat| #![trigger nth(x, j)] j < k ==> !ended(nth(x, j)) && excluded(nth(x, j)) }
    pub open spec fn good(d: crate::Date) -> bool { y4(d.the_day()) && d.plain() }
    /// within the years 0 to 9999, and advancing
    pub open spec fn fine<T: Recurring>(x: T) -> bool {
        recurs(x) && !past_until(x) ==> good(x.v_start()->0) && (x.v_end() matches Some(d) ==> good(d)) && (x.v_due() matches Some(d) ==> good(d)) && x.v_rule()->0.interval >= 1
    }
    pub open spec fn stop<T: Recurring>(x: T, k: nat) -> bool { reach(x, k) && (ended(nth(x, k)) || !excluded(nth(x, k))) }
    pub open spec fn first<T: Recurring>(x: T) -> nat { choose|k: nat| stop(x, k) }
    /// the n-th occurrence that is not excluded
    pub open spec fn run<T: Recurring>(x: T, n: nat) -> Option<T> decreases n {
        let y = nth(x, first(x));
        if ended(y) { None } else if n == 0 { Some(y) } else { run(succ(y), (n - 1) as nat) }
    }
    pub proof fn lemma_first<T: Recurring>(x: T, k: nat)
        requires stop(x, k)
        ensures first(x) == k
    {
        let f = first(x);
        assert(stop(x, f));
        if f < k { assert(excluded(nth(x, f))); }
        if k < f { assert(excluded(nth(x, k))); }
    }
    pub proof fn lemma_ended_run<T: Recurring>(x: T)
        requires ended(x)
        ensures forall|n: nat| run(x, n) is None
    {
        assert(nth(x, 0) == x);
        assert(stop(x, 0));
        lemma_first(x, 0);
    }
    pub proof fn lemma_stop<T: Recurring>(x: T, k: nat)
        requires stop(x, k)
        ensures ({
            let y = nth(x, k);
            &&& ended(y) ==> forall|n: nat| #![trigger run(x, n)] #![trigger run(y, n)] run(x, n) is None && run(y, n) is None
            &&& !ended(y) ==> run(x, 0) == Some(y) && forall|n: nat| #[trigger] run(succ(y), n) == run(x, n + 1)
        })
    {
        lemma_first(x, k);
        let y = nth(x, k);
        if ended(y) {
            lemma_ended_run(y);
        } else {
            assert forall|n: nat| #[trigger] run(succ(y), n) == run(x, n + 1) by {}
        }
    }
    pub proof fn lemma_succ<T: Recurring>(x: T)
        requires recurs(x)
        ensures
            succ(x).v_start() == Some(moved(x.v_rule()->0, x.v_start()->0)),
            succ(x).v_end() == (match x.v_end() { Some(d) => Some(moved(x.v_rule()->0, d)), None => succ(x).v_end() }),
            succ(x).v_due() == (match x.v_due() { Some(d) => Some(moved(x.v_rule()->0, d)), None => succ(x).v_due() }),
            x.v_end() is None ==> succ(x).v_end() is None, x.v_due() is None ==> succ(x).v_due() is None,
            succ(x).v_rule() == Some(used(x.v_rule()->0)),
            succ(x).v_ex() == x.v_ex(),
            ({
                let r = x.v_rule()->0;
                let a = x.with_start(moved(r, x.v_start()->0));
                let b = match x.v_end() { Some(d) => a.with_end(moved(r, d)), None => a };
                let c = match x.v_due() { Some(d) => b.with_due(moved(r, d)), None => b };
                a.v_end() == x.v_end() && b.v_due() == x.v_due() && c.with_rule(r).with_rule(used(r)) == succ(x)
            }),
    {
        let r = x.v_rule()->0;
        let s = moved(r, x.v_start()->0);
        let a = x.with_start(s);
        T::laws(x, s, r);
        let e = moved(r, x.v_end()->0);
        T::laws(a, e, r);
        let b = match x.v_end() { Some(d) => a.with_end(moved(r, d)), None => a };
        let u = moved(r, x.v_due()->0);
        T::laws(b, u, r);
        let c = match x.v_due() { Some(d) => b.with_due(moved(r, d)), None => b };
        T::laws(c, s, used(r));
    }
    /// one rule applied k times
    pub open spec fn moves(r: crate::Recur, d: crate::Date, k: nat) -> crate::Date decreases k { if k == 0 { d } else { moved(r, moves(r, d, (k - 1) as nat)) } }
    /// The k-th occurrence starts k steps after the first, ends (or is due) k steps later than it,
    /// has COUNT - k occurrences to go and the same excluded dates; so the enumeration runs over the
    /// first COUNT starts, up to the first one later than the day of UNTIL.
    pub proof fn lemma_nth<T: Recurring>(x: T, k: nat)
        requires recurs(x), forall|j: nat| #![trigger nth(x, j)] j < k ==> !ended(nth(x, j))
        ensures ({
            let y = nth(x, k);
            let r = x.v_rule()->0;
            &&& y.v_start() == Some(moves(r, x.v_start()->0, k))
            &&& y.v_end() == (match x.v_end() { Some(d) => Some(moves(r, d, k)), None => None::<crate::Date> })
            &&& y.v_due() == (match x.v_due() { Some(d) => Some(moves(r, d, k)), None => None::<crate::Date> })
            &&& y.v_ex() == x.v_ex()
            &&& y.v_rule() is Some
            &&& r.count is None ==> y.v_rule() == Some(r)
            &&& r.count matches Some(c) ==> k <= c && y.v_rule() == Some(crate::Recur { count: Some((c - k) as u8), ..r })
            &&& ended(y) <==> (r.count matches Some(c) && k >= c) || (r.until matches Some(u) && moves(r, x.v_start()->0, k).the_day().day() > u.the_day().day())
        })
        decreases k
    {
        let r = x.v_rule()->0;
        if k == 0 {
            assert(nth(x, 0) == x);
            assert(r.count is Some ==> r == crate::Recur { count: Some((r.count->0 - k) as u8), ..r });
        } else {
            let j = (k - 1) as nat;
            lemma_nth(x, j);
            assert(!ended(nth(x, j)));
            lemma_succ(nth(x, j));
            let z = nth(x, j).v_rule()->0;
            lemma_same_step(z, r, x, j);
        }
    }
    proof fn lemma_same_step<T: Recurring>(z: crate::Recur, r: crate::Recur, x: T, j: nat)
        requires z.freq == r.freq, z.interval == r.interval
        ensures forall|d: crate::Date| moved(z, d) == moved(r, d)
    {}

    // ---- windows ----
    //@ props C14
    pub open spec fn starts_at<T: Recurring>(x: Option<T>) -> crate::Date { x->0.v_start()->0 }
    pub open spec fn before(a: crate::Date, b: crate::Date) -> bool { date_cmp(a, b) is Less }
    /// the occurrences advance and are of one kind
    pub open spec fn advancing<T: Recurring>(x: T) -> bool {
        forall|i: nat, j: nat| i < j && (#[trigger] run(x, i)) is Some && (#[trigger] run(x, j)) is Some
            ==> same_kind(starts_at(run(x, i)), starts_at(run(x, j))) && before(starts_at(run(x, i)), starts_at(run(x, j)))
    }
    /// the recurrence ends or comes to lo at some point
    pub open spec fn comes_to<T: Recurring>(x: T, lo: crate::Date) -> bool { exists|i: nat| (#[trigger] run(x, i)) is None || !before(starts_at(run(x, i)), lo) }
    pub open spec fn within<T: Recurring>(x: T, i: nat, lo: crate::Date, hi: Option<crate::Date>) -> bool {
        run(x, i) is Some && !before(starts_at(run(x, i)), lo) && (hi matches Some(h) ==> before(starts_at(run(x, i)), h))
    }
    /// it yields the occurrences from lo and before hi, each once and in order, and no others
    pub open spec fn window<T: Recurring, I: Iterator<Item = T>>(r: I, x: T, lo: crate::Date, hi: Option<crate::Date>) -> bool {
        exists|m: nat| #[trigger] window_from(r, x, lo, hi, m)
    }
    pub open spec fn window_from<T: Recurring, I: Iterator<Item = T>>(r: I, x: T, lo: crate::Date, hi: Option<crate::Date>, m: nat) -> bool {
        &&& forall|n: nat| #![trigger r.outs(n)] r.outs(n) is Some ==> r.outs(n) == run(x, m + n) && within(x, m + n, lo, hi)
        &&& forall|i: nat| #![trigger run(x, i)] within(x, i, lo, hi) ==> i >= m && r.outs((i - m) as nat) == run(x, i)
        &&& forall|n: nat, k: nat| n < k && (#[trigger] r.outs(n)) is None ==> (#[trigger] r.outs(k)) is None
    }
    pub proof fn lemma_run_starts<T: Recurring>(x: T, n: nat)
        ensures run(x, n) is Some ==> run(x, n)->0.v_start() is Some
        decreases n
    {
        let y = nth(x, first(x));
        if !ended(y) && n > 0 { lemma_run_starts(succ(y), (n - 1) as nat); }
    }
    pub proof fn lemma_run_ends<T: Recurring>(x: T, n: nat, k: nat)
        requires run(x, n) is None, n <= k
        ensures run(x, k) is None
        decreases n
    {
        let y = nth(x, first(x));
        if !ended(y) { if n > 0 { lemma_run_ends(succ(y), (n - 1) as nat, (k - 1) as nat); } }
    }
    pub proof fn lemma_before(a: crate::Date, b: crate::Date, lo: crate::Date)
        requires same_kind(a, b), before(a, b), before(b, lo)
        ensures before(a, lo)
    {}
    /// the occurrences from the m-th on, e of them or all, exist and are before hi
    pub open spec fn keeps<T: Recurring>(x: T, hi: crate::Date, m: nat, e: Option<nat>) -> bool {
        forall|j: nat| #![trigger run(x, j)] m <= j && (e matches Some(q) ==> j < m + q) ==> run(x, j) is Some && before(starts_at(run(x, j)), hi)
    }
    /// skipping those before lo and then taking those before hi selects the window
    pub proof fn lemma_window<T: Recurring, I: Iterator<Item = T>>(r: I, x: T, lo: crate::Date, hi: Option<crate::Date>, m: nat, e: Option<nat>)
        requires
            advancing(x),
            forall|j: nat| #![trigger run(x, j)] j < m ==> run(x, j) is Some && before(starts_at(run(x, j)), lo),
            run(x, m) is Some ==> !before(starts_at(run(x, m)), lo),
            hi is None ==> e is None,
            forall|n: nat| #![trigger r.outs(n)] r.outs(n) == (if e is None || n < e->0 { run(x, m + n) } else { None }),
            hi matches Some(h) ==> keeps(x, h, m, e),
            hi is Some && e is Some ==> run(x, m + e->0) is None || !before(starts_at(run(x, m + e->0)), hi->0),
        ensures window_from(r, x, lo, hi, m)
    {
        hide(run); hide(date_cmp);
        assert forall|i: nat| #![trigger run(x, i)] i >= m && run(x, i) is Some implies !before(starts_at(run(x, i)), lo) by {
            if i > m {
                if run(x, m) is None { lemma_run_ends(x, m, i); }
                if before(starts_at(run(x, i)), lo) { lemma_before(starts_at(run(x, m)), starts_at(run(x, i)), lo); }
            }
        }
        assert forall|i: nat| #![trigger run(x, i)] within(x, i, lo, hi) implies i >= m && r.outs((i - m) as nat) == run(x, i) by {
            if i >= m {
                let n = (i - m) as nat;
                assert(r.outs(n) == (if e is None || n < e->0 { run(x, m + n) } else { None }));
                if e is Some && n >= e->0 {
                    let q = (m + e->0) as nat;
                    if run(x, q) is None { lemma_run_ends(x, q, i); }
                    else if q < i { lemma_before(starts_at(run(x, q)), starts_at(run(x, i)), hi->0); }
                }
            }
        }
        assert forall|n: nat, k: nat| n < k && (#[trigger] r.outs(n)) is None implies (#[trigger] r.outs(k)) is None by {
            if e is None || k < e->0 { lemma_run_ends(x, m + n, m + k); }
        }
    }
    pub open spec fn tells<T: Recurring, P: Fn(&T) -> bool>(p: P, d: crate::Date) -> bool {
        forall|y: T, b: bool| #[trigger] call_ensures(p, (&y,), b) ==> b == before(y.v_start()->0, d)
    }
    proof fn lemma_skip<T: Recurring, P: Fn(&T) -> bool>(r: SkipWhile<Recur<T>, P>, lo: crate::Date) -> (m: nat)
        requires skipped(r), tells::<T, P>(r.p, lo), comes_to(r.i.item, lo)
        ensures
            forall|j: nat| #![trigger run(r.i.item, j)] j < m ==> run(r.i.item, j) is Some && before(starts_at(run(r.i.item, j)), lo),
            run(r.i.item, m) is Some ==> !before(starts_at(run(r.i.item, m)), lo),
            forall|n: nat| #![trigger r.outs(n)] r.outs(n) == run(r.i.item, m + n),
    {
        let x = r.i.item;
        let i = choose|i: nat| (#[trigger] run(x, i)) is None || !before(starts_at(run(x, i)), lo);
        if forall|j: nat| #[trigger] passes(r.i, r.p, j) { assert(passes(r.i, r.p, i)); }
        let m = choose|m: nat| #[trigger] ends_at(r.i, r.p, m) && forall|n: nat| #[trigger] r.outs(n) == r.i.outs(m + n);
        assert forall|j: nat| #![trigger run(x, j)] j < m implies run(x, j) is Some && before(starts_at(run(x, j)), lo) by { assert(passes(r.i, r.p, j)); }
        m
    }
    proof fn lemma_after<T: Recurring, P: Fn(&T) -> bool>(r: SkipWhile<Recur<T>, P>, lo: crate::Date)
        requires skipped(r), tells::<T, P>(r.p, lo)
        ensures advancing(r.i.item) && comes_to(r.i.item, lo) ==> window(r, r.i.item, lo, None)
    {
        let x = r.i.item;
        if advancing(x) && comes_to(x, lo) {
            let m = lemma_skip(r, lo);
            lemma_window(r, x, lo, None, m, None);
        }
    }
    proof fn lemma_between<T: Recurring, P: Fn(&T) -> bool, Q: Fn(&T) -> bool>(r: TakeWhile<SkipWhile<Recur<T>, P>, Q>, lo: crate::Date, hi: crate::Date)
        requires skipped(r.i), taken(r), tells::<T, P>(r.i.p, lo), tells::<T, Q>(r.p, hi)
        ensures advancing(r.i.i.item) && comes_to(r.i.i.item, lo) ==> window(r, r.i.i.item, lo, Some(hi))
    {
        hide(run); hide(date_cmp); hide(window_from); hide(starts_at); hide(before); hide(advancing);
        let x = r.i.i.item;
        if advancing(x) && comes_to(x, lo) {
            let m = lemma_skip(r.i, lo);
            if exists|e: nat| #[trigger] ends_at(r.i, r.p, e) && forall|n: nat| #[trigger] r.outs(n) == (if n < e { r.i.outs(n) } else { None }) {
                let e: nat = choose|e: nat| #[trigger] ends_at(r.i, r.p, e) && forall|n: nat| #[trigger] r.outs(n) == (if n < e { r.i.outs(n) } else { None });
                assert forall|j: nat| #![trigger run(x, j)] m <= j && j < m + e implies run(x, j) is Some && before(starts_at(run(x, j)), hi) by { let n = (j - m) as nat; assert(passes(r.i, r.p, n)); assert(r.i.outs(n) == run(x, m + n)); let y = run(x, m + n)->0; assert(call_ensures(r.p, (&y,), true)); reveal(starts_at); }
                reveal(starts_at); let y = run(x, m + e)->0; assert(r.i.outs(e) == run(x, m + e));
                lemma_window(r, x, lo, Some(hi), m, Some(e));
            } else {
                assert forall|j: nat| #![trigger run(x, j)] m <= j implies run(x, j) is Some && before(starts_at(run(x, j)), hi) by { let n = (j - m) as nat; assert(passes(r.i, r.p, n)); assert(r.i.outs(n) == run(x, m + n)); let y = run(x, m + n)->0; assert(call_ensures(r.p, (&y,), true)); reveal(starts_at); }
                lemma_window(r, x, lo, Some(hi), m, None);
            }
        }
    }
    proof fn lemma_starts<T: Recurring>(x: T)
        ensures forall|n: nat| #![trigger run(x, n)] run(x, n) is Some ==> run(x, n)->0.v_start() is Some
    {
        assert forall|n: nat| #![trigger run(x, n)] run(x, n) is Some implies run(x, n)->0.v_start() is Some by { lemma_run_starts(x, n); }
    }
    pub broadcast axiom fn ax_into_self(x: crate::Date)
        ensures #[trigger] <crate::Date as IntoSpec<crate::Date>>::into_spec(x) == x;
    pub axiom fn ax_obeys_self() ensures <crate::Date as IntoSpec<crate::Date>>::obeys_into_spec();
    //@ props C13,C14
    //@ item crate::iter::Recur
    //@ impl crate::iter | Recur<T> | inherent
    //@ method from
    //@ ret r
        ensures r.item == *item
    //@ head
        proof { T::law_clone(*item); }
    //@ end
    //@ props C14
    //@ method between
    //@ ret r
        requires <D as IntoSpec<crate::Date>>::obeys_into_spec()
        ensures advancing(self.item) && comes_to(self.item, <D as IntoSpec<crate::Date>>::into_spec(start))
            ==> window(r, self.item, <D as IntoSpec<crate::Date>>::into_spec(start), Some(<D as IntoSpec<crate::Date>>::into_spec(end)))
    //@ closure 0 |x: &T| -> (b: bool)
        requires x.v_start() is Some
        ensures b == before(x.v_start()->0, <D as IntoSpec<crate::Date>>::into_spec(start))
    //@ closure 1 |x: &T| -> (b: bool)
        requires x.v_start() is Some
        ensures b == before(x.v_start()->0, <D as IntoSpec<crate::Date>>::into_spec(end))
    //@ head
        hide(run); hide(advancing); hide(comes_to); hide(window);
        proof { lemma_starts(self.item); }
    //@ tail
        proof { lemma_between(vx_r, <D as IntoSpec<crate::Date>>::into_spec(start), <D as IntoSpec<crate::Date>>::into_spec(end)); }
    //@ end
    //@ method at
    //@ ret r
        requires <D as IntoSpec<crate::Date>>::obeys_into_spec(),
            <D as IntoSpec<crate::Date>>::into_spec(date).plain(), <D as IntoSpec<crate::Date>>::into_spec(date).can_plus(86400000000000int),
        ensures ({
            let d = <D as IntoSpec<crate::Date>>::into_spec(date);
            advancing(self.item) && comes_to(self.item, d) ==> window(r, self.item, d, Some(d.plus(86400000000000int)))
        })
    //@ head
        proof { ax_obeys_self(); }
        broadcast use ax_into_self;
    //@ end
    //@ method after
    //@ ret r
        requires <D as IntoSpec<crate::Date>>::obeys_into_spec()
        ensures advancing(self.item) && comes_to(self.item, <D as IntoSpec<crate::Date>>::into_spec(date))
            ==> window(r, self.item, <D as IntoSpec<crate::Date>>::into_spec(date), None)
    //@ closure 0 |x: &T| -> (b: bool)
        requires x.v_start() is Some
        ensures b == before(x.v_start()->0, <D as IntoSpec<crate::Date>>::into_spec(date))
    //@ head
        hide(run); hide(advancing); hide(comes_to); hide(window);
        proof { lemma_starts(self.item); }
    //@ tail
        proof { lemma_after(vx_r, <D as IntoSpec<crate::Date>>::into_spec(date)); }
    //@ end
    //@ endimpl
    //@ props C13,C14
    //@ impl crate::iter | Iterator for Recur<T>
    open spec fn can(&self) -> bool { forall|k: nat| #![trigger nth(self.item, k)] reach(self.item, k) ==> fine(nth(self.item, k)) }
    open spec fn outs(&self, n: nat) -> Option<T> { run(self.item, n) }
    //@ method next
    //@ ret r
        ensures exists|k: nat| #![trigger nth(old(self).item, k)] stop(old(self).item, k)
            && (ended(nth(old(self).item, k)) ==> r is None && final(self).item == nth(old(self).item, k))
            && (!ended(nth(old(self).item, k)) ==> r == Some(nth(old(self).item, k)) && final(self).item == succ(nth(old(self).item, k)))
    //@ head
        hide(step); hide(crate::properties::date::date_cmp);
        let ghost x0 = self.item;
        let ghost mut k: nat = 0;
        proof { assert(nth(x0, 0) == x0); }
    //@ before let current =
        let ghost x = self.item;
        proof {
            T::law_clone(x);
            assert(fine(x));
            if recurs(x) {
                lemma_succ(x);
                if !past_until(x) { lemma_step_up(x.v_rule()->0.freq, x.v_rule()->0.interval as int, x.v_start()->0); }
            }
            if ended(x) || !excluded(x) { assert(stop(x0, k)); lemma_stop(x0, k); }
        }
    //@ before self.item = next;
        proof { k = k + 1; assert(nth(x0, k) == succ(x)); assert(next == succ(x)); }
    //@ loop 0
        invariant self.item == nth(x0, k), reach(x0, k), x0 == old(self).item,
            forall|j: nat| #![trigger nth(x0, j)] reach(x0, j) ==> fine(nth(x0, j)),
        decreases (if !recurs(self.item) || past_until(self.item) { 0int } else { 1 + pos_max() - pos(self.item.v_start()->0) })
    //@ end
    //@ endimpl
    //@ impl crate::components::vevent | VEvent | inherent
    //@ skipmethod new
    //@ method recurrent
    //@ ret r
        ensures r.item == *self
    //@ end
    //@ endimpl
    //@ impl crate::components::vjournal | VJournal | inherent
    //@ skipmethod new
    //@ method recurrent
    //@ ret r
        ensures r.item == *self
    //@ end
    //@ endimpl
    //@ impl crate::components::vtodo | VTodo | inherent
    //@ skipmethod new
    //@ method recurrent
    //@ ret r
        ensures r.item == *self
    //@ end
    //@ endimpl
    //@ props
}
