    //@ props C13
    /// where a date stands in time, in nanoseconds (an instant: in UTC)
    pub open spec fn pos(x: crate::Date) -> int {
        match x {
            crate::Date::Date(d) => d.day() * 86400000000000int,
            crate::Date::DateTime(crate::DateTime::Naive(c)) => c.ns(),
            crate::Date::DateTime(crate::DateTime::Local(l)) => l.utc().ns(),
        }
    }
    pub open spec fn pos_max() -> int { 2932900 * 86400000000000int }
    pub proof fn lemma_mstart(t: int, n: int)
        requires n >= 0
        ensures crate::chrono::mstart(t + n) >= crate::chrono::mstart(t) + 28 * n
        decreases n
    {
        if n > 0 { lemma_mstart(t, n - 1); crate::chrono::ax_mlen(t + n - 1); }
    }
    pub proof fn lemma_months_up(x: NaiveDate, n: int)
        requires y4(x), 1 <= n <= 3060
        ensures plus_months(x, n).day() >= x.day() + 28
    {
        let t = x.y() * 12 + (x.m() - 1);
        let y = (t + n) / 12;
        let m = (t + n) % 12 + 1;
        lemma_months_room(x, n);
        let d = if x.d() <= crate::chrono::mdays(y, m) { x.d() } else { crate::chrono::mdays(y, m) };
        let z = plus_months(x, n);
        assert(0 <= y <= 10254 && 1 <= m <= 12);
        assert(crate::chrono::valid_ymd(y, m, d));
        assert(z == crate::chrono::ymd(y, m, d));
        assert(z.y() == y && z.m() == m && z.d() == d);
        assert(z.y() * 12 + z.m() - 1 == t + n);
        crate::chrono::ax_mstart(x);
        crate::chrono::ax_mstart(z);
        lemma_mstart(t, n);
        lemma_mstart(t + 1, n);
        crate::chrono::ax_mlen(t);
        crate::chrono::ax_mlen(t + n);
        assert(t / 12 == x.y() && t % 12 + 1 == x.m());
    }
    /// a step of at least one unit goes forward
    pub proof fn lemma_step_up(f: Freq, n: int, x: crate::Date)
        requires 1 <= n <= 255, y4(x.the_day()), x.plain()
        ensures pos(step(f, n, x)) > pos(x), pos(x) < pos_max(), step(f, n, x).plain()
    {
        hide(plus_months); hide(months_ok); hide(crate::chrono::leap); hide(crate::chrono::mdays);
        assert(day_0_9(x.the_day().day()));
        match x {
            crate::Date::Date(d) => {
                if sub_daily(f) {
                    let c = dt_of(d, 0, 0);
                    lemma_room(c, n * unit_ns(f));
                    crate::chrono::lemma_dt_at(c.ns() + n * unit_ns(f));
                } else if calendar(f) {
                    lemma_months_up(d, n * unit_months(f));
                }
            }
            crate::Date::DateTime(crate::DateTime::Naive(c)) => {
                if calendar(f) {
                    lemma_months_up(c.dt(), n * unit_months(f));
                    let e = dt_of(plus_months(c.dt(), n * unit_months(f)), c.sec(), c.frac());
                    assert(e.dt() == plus_months(c.dt(), n * unit_months(f)));
                } else {
                    lemma_room(c, n * unit_ns(f));
                    crate::chrono::lemma_dt_at(c.ns() + n * unit_ns(f));
                }
            }
            crate::Date::DateTime(crate::DateTime::Local(l)) => {
                lemma_utc_room(l);
                if calendar(f) {
                    let c = l.clock();
                    lemma_months_room(c.dt(), n * unit_months(f));
                    lemma_months_up(c.dt(), n * unit_months(f));
                    let e = dt_of(plus_months(c.dt(), n * unit_months(f)), c.sec(), c.frac());
                    assert(e.dt() == plus_months(c.dt(), n * unit_months(f)) && e.plain());
                    assert(e.ns() >= c.ns() + 28 * 86400000000000int);
                    match earliest_of(e) {
                        Some(k) => { assert(k.clock() == e); assert(k.utc().plain()); }
                        None => {
                            lemma_clock_room(e, offset_at(l.utc()));
                            crate::chrono::lemma_dt_at(e.ns() - offset_at(l.utc()) * 1000000000int);
                        }
                    }
                } else {
                    lemma_room(l.utc(), n * unit_ns(f));
                    crate::chrono::lemma_dt_at(l.utc().ns() + n * unit_ns(f));
                }
            }
        }
    }
    //@ props
