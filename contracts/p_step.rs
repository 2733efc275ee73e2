    //@ props C12,C13
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use core::cmp::Ordering;
    use crate::chrono::{NaiveDate, NaiveDateTime, Local, TimeDelta, Months, dt_at, date_at, local_at, earliest_of, offset_at, int_cmp, day_ok, ns_ok, y4, dt_of, plus_months, months_ok};
    use crate::chrono;

    //@ derived crate::properties::recur::Freq | Clone
    //@ derived crate::properties::recur::Freq | PartialEq
    //@ derived crate::properties::recur::Freq | PartialOrd | Secondly Minutely Hourly Daily Weekly Monthly Yearly
    impl Clone for Freq { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl PartialEqSpecImpl for Freq {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Freq) -> bool { *self == *o }
    }
    impl PartialEq for Freq { #[verifier::external_body] fn eq(&self, o: &Freq) -> bool { unimplemented!() } }
    impl Eq for Freq {}
    /// position in the declaration, which is what the derived order compares
    pub open spec fn rank(x: Freq) -> int {
        match x { Freq::Secondly => 0, Freq::Minutely => 1, Freq::Hourly => 2, Freq::Daily => 3, Freq::Weekly => 4, Freq::Monthly => 5, Freq::Yearly => 6 }
    }
    impl PartialOrdSpecImpl for Freq {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Freq) -> Option<Ordering> { Some(int_cmp(rank(*self), rank(*o))) }
    }
    impl PartialOrd for Freq { #[verifier::external_body] fn partial_cmp(&self, o: &Freq) -> Option<Ordering> { unimplemented!() } }

    //@ item crate::properties::recur::Recur
    //@ derived crate::properties::recur::Recur | Clone
    impl Clone for Recur { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

    /// length of a fixed unit in nanoseconds; zero for months and years
    pub open spec fn unit_ns(f: Freq) -> int {
        match f { Freq::Secondly => 1000000000int, Freq::Minutely => 60000000000int, Freq::Hourly => 3600000000000int, Freq::Daily => 86400000000000int, Freq::Weekly => 604800000000000int, _ => 0 }
    }
    /// calendar units in months
    pub open spec fn unit_months(f: Freq) -> int { match f { Freq::Monthly => 1, Freq::Yearly => 12, _ => 0 } }
    pub open spec fn calendar(f: Freq) -> bool { f is Monthly || f is Yearly }
    pub open spec fn sub_daily(f: Freq) -> bool { f is Secondly || f is Minutely || f is Hourly }
    pub open spec fn step_day(f: Freq, n: int, x: NaiveDate) -> NaiveDate {
        if calendar(f) { plus_months(x, n * unit_months(f)) }
        else if f is Daily { date_at(x.day() + n) }
        else if f is Weekly { date_at(x.day() + 7 * n) }
        else { x }
    }
    pub open spec fn step_clock(f: Freq, n: int, x: NaiveDateTime) -> NaiveDateTime {
        if calendar(f) { dt_of(plus_months(x.dt(), n * unit_months(f)), x.sec(), x.frac()) } else { dt_at(x.ns() + n * unit_ns(f)) }
    }
    /// an instant: fixed units exactly; months and years on the clock, unless the clock skips that time
    pub open spec fn step_local(f: Freq, n: int, x: chrono::DateTime<Local>) -> chrono::DateTime<Local> {
        if calendar(f) {
            let c = step_clock(f, n, x.clock());
            match earliest_of(c) { Some(l) => l, None => local_at(dt_at(c.ns() - offset_at(x.utc()) * 1000000000int)) }
        } else {
            local_at(dt_at(x.utc().ns() + n * unit_ns(f)))
        }
    }
    pub open spec fn step_dt(f: Freq, n: int, x: crate::DateTime) -> crate::DateTime {
        match x { crate::DateTime::Naive(c) => crate::DateTime::Naive(step_clock(f, n, c)), crate::DateTime::Local(l) => crate::DateTime::Local(step_local(f, n, l)) }
    }
    /// a plain date stays one unless the step is shorter than a day
    pub open spec fn step(f: Freq, n: int, x: crate::Date) -> crate::Date {
        match x {
            crate::Date::Date(d) => if sub_daily(f) { crate::Date::DateTime(crate::DateTime::Naive(step_clock(f, n, dt_of(d, 0, 0)))) } else { crate::Date::Date(step_day(f, n, d)) },
            crate::Date::DateTime(dt) => crate::Date::DateTime(step_dt(f, n, dt)),
        }
    }
    /// steps stay far inside the range of dates when they start in the years 0 to 9999
    pub proof fn lemma_room(x: NaiveDateTime, k: int)
        requires -719530 <= x.dt().day() <= 2932900, -86400000000000int <= k <= 2000 * 86400000000000int
        ensures ns_ok(x.ns() + k), -719533 <= (x.ns() + k) / 86400000000000int <= 2934905
    {
        let d = 86400000000000int;
        let t = x.ns() + k;
        assert(d == 86400000000000int);
        assert(0 <= x.sec() * 1000000000int + x.frac() <= 86401 * 1000000000int);
        assert(-719532 * d <= t <= 2934902 * d) by (nonlinear_arith) requires d == 86400000000000int, 1000000000int == 1000000000int, t == x.dt().day() * d + x.sec() * 1000000000int + x.frac() + k, -719530 <= x.dt().day() <= 2932900, -86400000000000int <= k <= 2000 * d, 0 <= x.sec() * 1000000000int + x.frac() <= 86401 * 1000000000int;
        assert(-719533 <= t / d <= 2934905) by (nonlinear_arith) requires d == 86400000000000int, -719532 * d <= t <= 2934902 * d;
    }
    /// the clock of an instant is less than a day from its UTC time
    pub proof fn lemma_utc_room(x: chrono::DateTime<Local>)
        requires y4(x.clock().dt()), x.utc().plain()
        ensures -719530 <= x.utc().dt().day() <= 2932900
    {
        let u = x.utc();
        let c = x.clock();
        let d = 86400000000000int;
        let o = offset_at(u) * 1000000000int;
        assert(c.ns() == u.ns() + o);
        assert(-d < o < d);
        assert(0 <= c.sec() * 1000000000int + c.frac() < d);
        assert(0 <= u.sec() * 1000000000int + u.frac() < d);
        assert(day_0_9(c.dt().day()));
        assert(-719530 <= u.dt().day() <= 2932900) by (nonlinear_arith) requires
            d == 86400000000000int, u.dt().day() * d + (u.sec() * 1000000000int + u.frac()) + o == c.dt().day() * d + (c.sec() * 1000000000int + c.frac()),
            -d < o < d, 0 <= c.sec() * 1000000000int + c.frac() < d, 0 <= u.sec() * 1000000000int + u.frac() < d, -719528 <= c.dt().day() <= 2932896;
    }
    /// a clock time at least a year from the ends of the range has an instant, whatever the offset
    pub proof fn lemma_clock_room(c: NaiveDateTime, o: int)
        requires -262142 <= c.dt().y() <= 262141, c.plain(), -86400 < o < 86400
        ensures ns_ok(c.ns() - o * 1000000000int)
    {
        crate::chrono::ax_inner(c.dt());
        let t = c.ns() - o * 1000000000int;
        let d = c.dt().day();
        let r = c.sec() * 1000000000int + c.frac() - o * 1000000000int;
        assert(t == d * 86400000000000int + r);
        assert(-86400000000000int < r < 2 * 86400000000000int);
        assert(d - 1 <= t / 86400000000000int <= d + 1);
    }
    pub proof fn lemma_months_room(x: NaiveDate, n: int)
        requires y4(x), 0 <= n <= 3060
        ensures months_ok(x, n), 0 <= plus_months(x, n).y() <= 10254, 1 <= plus_months(x, n).m() <= 12
    {
        let t = x.y() * 12 + (x.m() - 1) + n;
        let y = t / 12;
        let m = t % 12 + 1;
        assert(0 <= y <= 10254 && 1 <= m <= 12);
        let d = if x.d() <= crate::chrono::mdays(y, m) { x.d() } else { crate::chrono::mdays(y, m) };
        assert(crate::chrono::valid_ymd(y, m, d));
        assert(plus_months(x, n) == crate::chrono::ymd(y, m, d));
        assert(crate::chrono::ymd(y, m, d).y() == y);
    }
    pub open spec fn day_0_9(n: int) -> bool { -719528 <= n <= 2932896 }

    impl AddSpecImpl<NaiveDate> for Recur {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: NaiveDate) -> bool { y4(rhs) }
        open spec fn add_spec(self, rhs: NaiveDate) -> NaiveDate { step_day(self.freq, self.interval as int, rhs) }
    }
    //@ impl crate::properties::recur | Add<chrono::NaiveDate> for crate::Recur
    //@ method add
    //@ head
        proof { assert(day_0_9(rhs.day())); }
    //@ end
    //@ endimpl
    impl AddSpecImpl<NaiveDateTime> for Recur {
        open spec fn obeys_add_spec() -> bool { false }
        open spec fn add_req(self, rhs: NaiveDateTime) -> bool { y4(rhs.dt()) }
        open spec fn add_spec(self, rhs: NaiveDateTime) -> NaiveDateTime { step_clock(self.freq, self.interval as int, rhs) }
    }
    //@ impl crate::properties::recur | Add<chrono::NaiveDateTime> for crate::Recur
    //@ method add
    //@ ret r
        ensures rhs.plain() ==> r == step_clock(self.freq, self.interval as int, rhs) && r.plain()
    //@ head
        proof { assert(day_0_9(rhs.dt().day())); lemma_room(rhs, self.interval as int * unit_ns(self.freq)); }
    //@ end
    //@ endimpl
    //@ fn crate::properties::recur::add_months
    //@ ret r
        requires y4(rhs.clock().dt()), months.n <= 12 * 255, rhs.utc().plain()
        ensures ({
                let c = dt_of(plus_months(rhs.clock().dt(), months.n as int), rhs.clock().sec(), rhs.clock().frac());
                r == (match earliest_of(c) { Some(l) => l, None => local_at(dt_at(c.ns() - offset_at(rhs.utc()) * 1000000000int)) })
            }),
    //@ head
        hide(plus_months); hide(months_ok); hide(ns_ok); hide(dt_at);
        proof {
            let k = rhs.clock();
            lemma_months_room(k.dt(), months.n as int);
            let c = dt_of(plus_months(k.dt(), months.n as int), k.sec(), k.frac());
            assert(k.plain());
            assert(c.dt() == plus_months(k.dt(), months.n as int) && c.frac() == k.frac());
            lemma_clock_room(c, offset_at(rhs.utc()));
        }
    //@ closure 0 || -> (vx_r: crate::chrono::DateTime<crate::chrono::Local>)
        requires ns_ok(naive.ns() - offset_at(rhs.utc()) * 1000000000int), naive.plain()
        ensures vx_r == local_at(dt_at(naive.ns() - offset_at(rhs.utc()) * 1000000000int))
    //@ end
    impl AddSpecImpl<chrono::DateTime<Local>> for Recur {
        open spec fn obeys_add_spec() -> bool { false }
        open spec fn add_req(self, rhs: chrono::DateTime<Local>) -> bool { y4(rhs.clock().dt()) && rhs.utc().plain() }
        open spec fn add_spec(self, rhs: chrono::DateTime<Local>) -> chrono::DateTime<Local> { step_local(self.freq, self.interval as int, rhs) }
    }
    //@ impl crate::properties::recur | Add<chrono::DateTime<chrono::Local>> for crate::Recur
    //@ method add
    //@ ret r
        ensures r == step_local(self.freq, self.interval as int, rhs)
    //@ head
        proof { lemma_utc_room(rhs); lemma_room(rhs.utc(), self.interval as int * unit_ns(self.freq)); }
    //@ end
    //@ endimpl
    impl AddSpecImpl<crate::DateTime> for Recur {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: crate::DateTime) -> bool { y4(rhs.clock().dt()) && rhs.plain() }
        open spec fn add_spec(self, rhs: crate::DateTime) -> crate::DateTime { step_dt(self.freq, self.interval as int, rhs) }
    }
    //@ impl crate::properties::recur | Add<crate::DateTime> for crate::Recur
    //@ method add
    //@ keep
    //@ end
    //@ endimpl
    impl AddSpecImpl<crate::Date> for Recur {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: crate::Date) -> bool { y4(rhs.the_day()) && rhs.plain() }
        open spec fn add_spec(self, rhs: crate::Date) -> crate::Date { step(self.freq, self.interval as int, rhs) }
    }
    //@ impl crate::properties::recur | Add<crate::Date> for crate::Recur
    //@ method add
    //@ keep
    //@ end
    //@ endimpl
    //@ props
