// Contracts assumed of chrono 0.4 (see DESIGN.md, "Assumed contracts").
pub mod chrono {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use core::ops::*;
    use core::cmp::*;
    use crate::xstd::prelude::*;
    use crate::xstd::fmt::{two_text, nat_text};

    pub mod offset { pub use super::FixedOffset; }
    pub enum ParseError { X }

    // ---- spans of time: a number of nanoseconds ----
    #[verifier::external_body]
    #[derive(Clone, Copy, Debug)]
    pub struct TimeDelta { x: i64 }
    pub type Duration = TimeDelta;
    /// the largest span in milliseconds
    pub open spec fn max_ns() -> int { 9223372036854775807int * 1000000 }
    pub open spec fn fits(ns: int) -> bool { -max_ns() <= ns <= max_ns() }
    pub uninterp spec fn span_of(ns: int) -> TimeDelta;
    pub broadcast axiom fn ax_span_of(ns: int) requires fits(ns) ensures (#[trigger] span_of(ns)).ns() == ns;
    pub broadcast axiom fn ax_span(d: TimeDelta) ensures fits(#[trigger] d.ns()), span_of(d.ns()) == d;
    /// what {} prints for a span
    pub uninterp spec fn span_text(ns: int) -> Seq<char>;
    /// whole seconds: P0D, PT1S, -PT1S
    pub broadcast axiom fn ax_span_text(ns: int) requires fits(ns), ns % 1000000000 == 0
        ensures #![trigger span_text(ns)] span_text(ns) == (if ns < 0 { seq!['-', 'P', 'T'] + nat_text(-ns / 1000000000) + seq!['S'] }
            else if ns == 0 { seq!['P', '0', 'D'] } else { seq!['P', 'T'] + nat_text(ns / 1000000000) + seq!['S'] });
    impl TimeDelta {
        pub uninterp spec fn ns(&self) -> int;
        #[verifier::external_body]
        pub fn zero() -> (r: TimeDelta) ensures r.ns() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn default() -> (r: TimeDelta) ensures r.ns() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn seconds(n: i64) -> (r: TimeDelta) requires fits(n * 1000000000int) ensures r.ns() == n * 1000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn minutes(n: i64) -> (r: TimeDelta) requires fits(n * 60000000000int) ensures r.ns() == n * 60000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn hours(n: i64) -> (r: TimeDelta) requires fits(n * 3600000000000int) ensures r.ns() == n * 3600000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn days(n: i64) -> (r: TimeDelta) requires fits(n * 86400000000000int) ensures r.ns() == n * 86400000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn weeks(n: i64) -> (r: TimeDelta) requires fits(n * 604800000000000int) ensures r.ns() == n * 604800000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn try_seconds(n: i64) -> (r: Option<TimeDelta>) ensures r is Some <==> fits(n * 1000000000int), r is Some ==> r->0.ns() == n * 1000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn try_minutes(n: i64) -> (r: Option<TimeDelta>) ensures r is Some <==> fits(n * 60000000000int), r is Some ==> r->0.ns() == n * 60000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn try_hours(n: i64) -> (r: Option<TimeDelta>) ensures r is Some <==> fits(n * 3600000000000int), r is Some ==> r->0.ns() == n * 3600000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn try_days(n: i64) -> (r: Option<TimeDelta>) ensures r is Some <==> fits(n * 86400000000000int), r is Some ==> r->0.ns() == n * 86400000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn try_weeks(n: i64) -> (r: Option<TimeDelta>) ensures r is Some <==> fits(n * 604800000000000int), r is Some ==> r->0.ns() == n * 604800000000000int { unimplemented!() }
        #[verifier::external_body]
        pub fn checked_add(&self, o: &TimeDelta) -> (r: Option<TimeDelta>) ensures r is Some <==> fits(self.ns() + o.ns()), r is Some ==> r->0.ns() == self.ns() + o.ns() { unimplemented!() }
    }
    impl NegSpecImpl for TimeDelta {
        open spec fn obeys_neg_spec() -> bool { true }
        open spec fn neg_req(self) -> bool { true }
        open spec fn neg_spec(self) -> TimeDelta { span_of(-self.ns()) }
    }
    impl Neg for TimeDelta {
        type Output = TimeDelta;
        #[verifier::external_body]
        fn neg(self) -> (r: TimeDelta) { unimplemented!() }
    }
    pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    impl PartialEqSpecImpl for TimeDelta {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &TimeDelta) -> bool { *self == *o }
    }
    impl PartialEq for TimeDelta { #[verifier::external_body] fn eq(&self, o: &TimeDelta) -> bool { unimplemented!() } }
    impl Eq for TimeDelta {}
    impl PartialOrdSpecImpl for TimeDelta {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &TimeDelta) -> Option<Ordering> { Some(int_cmp(self.ns(), o.ns())) }
    }
    impl PartialOrd for TimeDelta { #[verifier::external_body] fn partial_cmp(&self, o: &TimeDelta) -> Option<Ordering> { unimplemented!() } }
    impl OrdSpecImpl for TimeDelta {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, o: &TimeDelta) -> Ordering { int_cmp(self.ns(), o.ns()) }
    }
    impl Ord for TimeDelta { #[verifier::external_body] fn cmp(&self, o: &TimeDelta) -> Ordering { unimplemented!() } }
    impl crate::xstd::fmt::Display for TimeDelta {
        open spec fn disp(&self) -> Seq<char> { span_text(self.ns()) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut crate::xstd::fmt::Formatter<'_>) -> (r: crate::xstd::fmt::Result) { unimplemented!() }
    }

    pub struct Months { pub n: u32 }
    impl Months { pub fn new(n: u32) -> (r: Months) ensures r.n == n { Months { n } } }

    // ---- days ----
    #[verifier::external_body]
    #[derive(Clone, Copy, Debug)]
    pub struct NaiveDate { x: i32 }
    pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
    pub open spec fn mdays(y: int, m: int) -> int {
        if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
    }
    pub open spec fn valid_ymd(y: int, m: int, d: int) -> bool { -262143 <= y <= 262142 && 1 <= m <= 12 && 1 <= d <= mdays(y, m) }
    pub uninterp spec fn ymd(y: int, m: int, d: int) -> NaiveDate;
    /// the date with this day number
    pub uninterp spec fn date_at(day: int) -> NaiveDate;
    pub open spec fn day_ok(n: int) -> bool { first_day() <= n <= last_day() }
    /// 1 January -262143 and 31 December 262142, as days since 1 January 1970
    pub open spec fn first_day() -> int { -96465292 }
    pub open spec fn last_day() -> int { 95026236 }
    /// 1 January 0 and 31 December 9999
    pub open spec fn day_0000() -> int { -719528 }
    pub open spec fn day_9999() -> int { 2932896 }
    pub broadcast axiom fn ax_ymd(y: int, m: int, d: int) requires valid_ymd(y, m, d)
        ensures #![trigger ymd(y, m, d)] ymd(y, m, d).y() == y && ymd(y, m, d).m() == m && ymd(y, m, d).d() == d;
    pub broadcast axiom fn ax_date(x: NaiveDate)
        ensures #![trigger x.y()] #![trigger x.m()] #![trigger x.d()] valid_ymd(x.y(), x.m(), x.d()) && ymd(x.y(), x.m(), x.d()) == x;
    pub broadcast axiom fn ax_date_at(n: int) requires day_ok(n) ensures (#[trigger] date_at(n)).day() == n;
    pub broadcast axiom fn ax_day(x: NaiveDate) ensures day_ok(#[trigger] x.day()), date_at(x.day()) == x;
    /// which day numbers the years 0 to 9999 have
    pub broadcast axiom fn ax_years(x: NaiveDate)
        ensures #![trigger x.day(), x.y()] (0 <= x.y() <= 9999) <==> (day_0000() <= x.day() <= day_9999());
    /// the first and the last year have at least 365 days
    pub axiom fn ax_inner(x: NaiveDate)
        requires -262142 <= x.y() <= 262141
        ensures first_day() + 365 <= x.day() <= last_day() - 365;
    /// day number of the first of a month (t = year * 12 + month - 1)
    pub uninterp spec fn mstart(t: int) -> int;
    pub axiom fn ax_mstart(x: NaiveDate) ensures x.day() == mstart(x.y() * 12 + x.m() - 1) + x.d() - 1;
    pub axiom fn ax_mlen(t: int) ensures mstart(t + 1) == mstart(t) + mdays(t / 12, t % 12 + 1);
    /// calendar arithmetic: n months later, the day clipped to the end of the month
    pub open spec fn plus_months(x: NaiveDate, n: int) -> NaiveDate {
        let t = x.y() * 12 + (x.m() - 1) + n;
        let y = t / 12;
        let m = t % 12 + 1;
        ymd(y, m, if x.d() <= mdays(y, m) { x.d() } else { mdays(y, m) })
    }
    pub open spec fn months_ok(x: NaiveDate, n: int) -> bool { -262143 * 12 <= x.y() * 12 + (x.m() - 1) + n <= 262142 * 12 + 11 }
    /// whole days of a span, towards zero
    pub open spec fn whole_days(ns: int) -> int { if ns >= 0 { ns / 86400000000000int } else { -((-ns) / 86400000000000int) } }
    pub open spec fn date_text(x: NaiveDate) -> Seq<char> {
        two_text(x.y() / 100) + two_text(x.y() % 100) + two_text(x.m()) + two_text(x.d())
    }
    pub open spec fn y4(x: NaiveDate) -> bool { 0 <= x.y() <= 9999 }
    /// what format() prints
    pub uninterp spec fn fmt_date(x: NaiveDate, f: Seq<char>) -> Seq<char>;
    pub uninterp spec fn fmt_dt(x: NaiveDateTime, f: Seq<char>) -> Seq<char>;
    pub broadcast axiom fn ax_fmt_date(x: NaiveDate) requires y4(x) ensures #[trigger] fmt_date(x, "%Y%m%d"@) == date_text(x);
    pub broadcast axiom fn ax_fmt_dt(x: NaiveDateTime) requires y4(x.dt()), x.plain() ensures #[trigger] fmt_dt(x, "%Y%m%dT%H%M%S"@) == dt_text(x);
    pub broadcast axiom fn ax_fmt_dtz(x: NaiveDateTime) requires y4(x.dt()), x.plain() ensures #[trigger] fmt_dt(x, "%Y%m%dT%H%M%SZ"@) == dt_text(x) + seq!['Z'];
    /// what parse_from_str reads with %Y%m%d, with %Y%m%dT%H%M%S and with %Y%m%dT%H%M%SZ
    pub uninterp spec fn parsed_date(s: Seq<char>) -> Option<NaiveDate>;
    pub uninterp spec fn parsed_dt(s: Seq<char>) -> Option<NaiveDateTime>;
    pub uninterp spec fn parsed_dtz(s: Seq<char>) -> Option<NaiveDateTime>;
    pub broadcast axiom fn ax_parsed_date(x: NaiveDate) requires y4(x) ensures parsed_date(#[trigger] date_text(x)) == Some(x);
    pub broadcast axiom fn ax_parsed_date_t(s: Seq<char>) requires (#[trigger] parsed_date(s)) is Some ensures !s.contains('T');
    pub broadcast axiom fn ax_parsed_dt(x: NaiveDateTime) requires whole(x) ensures parsed_dt(#[trigger] dt_text(x)) == Some(x);
    pub broadcast axiom fn ax_parsed_dt_t(s: Seq<char>) requires (#[trigger] parsed_dt(s)) is Some ensures s.len() > 0 && s.last() != 'Z';
    pub broadcast axiom fn ax_parsed_dtz(x: NaiveDateTime) requires whole(x) ensures parsed_dtz(#[trigger] (dt_text(x) + seq!['Z'])) == Some(x);
    pub broadcast axiom fn ax_parsed_dtz_z(s: Seq<char>) requires (#[trigger] parsed_dtz(s)) is Some ensures s.len() > 0 && s.last() == 'Z';
    impl NaiveDate {
        pub uninterp spec fn day(&self) -> int;
        pub uninterp spec fn y(&self) -> int;
        pub uninterp spec fn m(&self) -> int;
        pub uninterp spec fn d(&self) -> int;
        #[verifier::external_body]
        pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>)
            ensures r is Some <==> h < 24 && m < 60 && s < 60,
                r is Some ==> r->0.dt() == *self && r->0.sec() == h * 3600 + m * 60 + s && r->0.frac() == 0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn format<'a>(&self, f: &'a str) -> (r: format::DelayedFormat<format::StrftimeItems<'a>>)
            ensures r.text() == fmt_date(*self, f@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parse_from_str(s: &str, f: &str) -> (r: core::result::Result<NaiveDate, ParseError>)
            ensures f@ == "%Y%m%d"@ ==> r is Ok == (parsed_date(s@) is Some) && (r is Ok ==> parsed_date(s@) == Some(r->Ok_0))
        { unimplemented!() }
    }
    impl AddSpecImpl<TimeDelta> for NaiveDate {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: TimeDelta) -> bool { day_ok(self.day() + whole_days(rhs.ns())) }
        open spec fn add_spec(self, rhs: TimeDelta) -> NaiveDate { date_at(self.day() + whole_days(rhs.ns())) }
    }
    impl Add<TimeDelta> for NaiveDate {
        type Output = NaiveDate;
        #[verifier::external_body]
        fn add(self, rhs: TimeDelta) -> NaiveDate { unimplemented!() }
    }
    impl AddSpecImpl<Months> for NaiveDate {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: Months) -> bool { months_ok(self, rhs.n as int) }
        open spec fn add_spec(self, rhs: Months) -> NaiveDate { plus_months(self, rhs.n as int) }
    }
    impl Add<Months> for NaiveDate {
        type Output = NaiveDate;
        #[verifier::external_body]
        fn add(self, rhs: Months) -> NaiveDate { unimplemented!() }
    }
    impl PartialEqSpecImpl for NaiveDate {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &NaiveDate) -> bool { *self == *o }
    }
    impl PartialEq for NaiveDate { #[verifier::external_body] fn eq(&self, o: &NaiveDate) -> bool { unimplemented!() } }
    impl Eq for NaiveDate {}
    impl PartialOrdSpecImpl for NaiveDate {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &NaiveDate) -> Option<Ordering> { Some(int_cmp(self.day(), o.day())) }
    }
    impl PartialOrd for NaiveDate { #[verifier::external_body] fn partial_cmp(&self, o: &NaiveDate) -> Option<Ordering> { unimplemented!() } }
    impl OrdSpecImpl for NaiveDate {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, o: &NaiveDate) -> Ordering { int_cmp(self.day(), o.day()) }
    }
    impl Ord for NaiveDate { #[verifier::external_body] fn cmp(&self, o: &NaiveDate) -> Ordering { unimplemented!() } }

    // ---- days with a time ----
    #[verifier::external_body]
    #[derive(Clone, Copy, Debug)]
    pub struct NaiveDateTime { x: i64 }
    pub uninterp spec fn dt_of(d: NaiveDate, sec: int, frac: int) -> NaiveDateTime;
    pub open spec fn tod_ok(sec: int, frac: int) -> bool { 0 <= sec < 86400 && 0 <= frac < 2 * 1000000000int }
    pub broadcast axiom fn ax_dt_of(d: NaiveDate, sec: int, frac: int) requires tod_ok(sec, frac)
        ensures #![trigger dt_of(d, sec, frac)] dt_of(d, sec, frac).dt() == d && dt_of(d, sec, frac).sec() == sec && dt_of(d, sec, frac).frac() == frac;
    pub broadcast axiom fn ax_dt(x: NaiveDateTime)
        ensures #![trigger x.dt()] #![trigger x.sec()] #![trigger x.frac()] tod_ok(x.sec(), x.frac()) && dt_of(x.dt(), x.sec(), x.frac()) == x;
    /// the date-time (without leap second) this many nanoseconds after 1 January 1970
    pub open spec fn dt_at(ns: int) -> NaiveDateTime { dt_of(date_at(ns / 86400000000000int), ns % 86400000000000int / 1000000000int, ns % 1000000000int) }
    pub open spec fn ns_ok(ns: int) -> bool { day_ok(ns / 86400000000000int) }
    pub open spec fn dt_cmp(a: NaiveDateTime, b: NaiveDateTime) -> Ordering {
        if a.dt().day() != b.dt().day() { int_cmp(a.dt().day(), b.dt().day()) }
        else if a.sec() != b.sec() { int_cmp(a.sec(), b.sec()) } else { int_cmp(a.frac(), b.frac()) }
    }
    /// YYYYMMDDTHHMMSS
    pub open spec fn dt_text(x: NaiveDateTime) -> Seq<char> {
        date_text(x.dt()) + seq!['T'] + two_text(x.sec() / 3600) + two_text(x.sec() / 60 % 60) + two_text(x.sec() % 60)
    }
    /// a date-time of the years 0 to 9999 in whole seconds
    pub open spec fn whole(x: NaiveDateTime) -> bool { y4(x.dt()) && x.frac() == 0 }
    impl NaiveDateTime {
        pub uninterp spec fn dt(&self) -> NaiveDate;
        pub uninterp spec fn sec(&self) -> int;
        pub uninterp spec fn frac(&self) -> int;
        /// not inside a leap second
        pub open spec fn plain(&self) -> bool { self.frac() < 1000000000int }
        pub open spec fn ns(&self) -> int { self.dt().day() * 86400000000000int + self.sec() * 1000000000int + self.frac() }
        #[verifier::external_body]
        pub fn default() -> (r: NaiveDateTime) ensures r.ns() == 0, r.plain() { unimplemented!() }
        #[verifier::external_body]
        pub fn date(&self) -> (r: NaiveDate) ensures r == self.dt() { unimplemented!() }
        #[verifier::external_body]
        pub fn format<'a>(&self, f: &'a str) -> (r: format::DelayedFormat<format::StrftimeItems<'a>>)
            ensures r.text() == fmt_dt(*self, f@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parse_from_str(s: &str, f: &str) -> (r: core::result::Result<NaiveDateTime, ParseError>)
            ensures f@ == "%Y%m%dT%H%M%S"@ ==> r is Ok == (parsed_dt(s@) is Some) && (r is Ok ==> parsed_dt(s@) == Some(r->Ok_0)),
                f@ == "%Y%m%dT%H%M%SZ"@ ==> r is Ok == (parsed_dtz(s@) is Some) && (r is Ok ==> parsed_dtz(s@) == Some(r->Ok_0))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn and_local_timezone(&self, tz: Local) -> (r: LocalResult) ensures r.clock() == *self { unimplemented!() }
        #[verifier::external_body]
        pub fn and_utc(&self) -> (r: DateTime<Utc>) ensures r.utc() == *self { unimplemented!() }
    }
    impl AddSpecImpl<TimeDelta> for NaiveDateTime {
        open spec fn obeys_add_spec() -> bool { false }
        open spec fn add_req(self, rhs: TimeDelta) -> bool { ns_ok(self.ns() + rhs.ns()) }
        open spec fn add_spec(self, rhs: TimeDelta) -> NaiveDateTime { dt_at(self.ns() + rhs.ns()) }
    }
    impl Add<TimeDelta> for NaiveDateTime {
        type Output = NaiveDateTime;
        #[verifier::external_body]
        fn add(self, rhs: TimeDelta) -> (r: NaiveDateTime) ensures self.plain() ==> r.plain() && r.ns() == self.ns() + rhs.ns() && r == dt_at(r.ns()) { unimplemented!() }
    }
    impl AddSpecImpl<Months> for NaiveDateTime {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, rhs: Months) -> bool { months_ok(self.dt(), rhs.n as int) }
        open spec fn add_spec(self, rhs: Months) -> NaiveDateTime { dt_of(plus_months(self.dt(), rhs.n as int), self.sec(), self.frac()) }
    }
    impl Add<Months> for NaiveDateTime {
        type Output = NaiveDateTime;
        #[verifier::external_body]
        fn add(self, rhs: Months) -> NaiveDateTime { unimplemented!() }
    }
    impl SubSpecImpl<FixedOffset> for NaiveDateTime {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: FixedOffset) -> bool { ns_ok(self.ns() - rhs.secs() * 1000000000int) }
        open spec fn sub_spec(self, rhs: FixedOffset) -> NaiveDateTime { self }
    }
    impl Sub<FixedOffset> for NaiveDateTime {
        type Output = NaiveDateTime;
        #[verifier::external_body]
        fn sub(self, rhs: FixedOffset) -> (r: NaiveDateTime) ensures self.plain() ==> r.plain() && r.ns() == self.ns() - rhs.secs() * 1000000000int && r == dt_at(r.ns()) { unimplemented!() }
    }
    impl SubSpecImpl<TimeDelta> for NaiveDateTime {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: TimeDelta) -> bool { ns_ok(self.ns() - rhs.ns()) }
        open spec fn sub_spec(self, rhs: TimeDelta) -> NaiveDateTime { self }
    }
    impl Sub<TimeDelta> for NaiveDateTime {
        type Output = NaiveDateTime;
        #[verifier::external_body]
        fn sub(self, rhs: TimeDelta) -> (r: NaiveDateTime) ensures self.plain() ==> r.plain() && r.ns() == self.ns() - rhs.ns() && r == dt_at(r.ns()) { unimplemented!() }
    }
    impl SubSpecImpl<NaiveDateTime> for NaiveDateTime {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: NaiveDateTime) -> bool { true }
        open spec fn sub_spec(self, rhs: NaiveDateTime) -> TimeDelta { span_of(self.ns() - rhs.ns()) }
    }
    impl Sub<NaiveDateTime> for NaiveDateTime {
        type Output = TimeDelta;
        #[verifier::external_body]
        fn sub(self, rhs: NaiveDateTime) -> (r: TimeDelta) ensures self.plain() && rhs.plain() ==> r.ns() == self.ns() - rhs.ns() { unimplemented!() }
    }
    impl PartialEqSpecImpl for NaiveDateTime {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &NaiveDateTime) -> bool { *self == *o }
    }
    impl PartialEq for NaiveDateTime { #[verifier::external_body] fn eq(&self, o: &NaiveDateTime) -> bool { unimplemented!() } }
    impl Eq for NaiveDateTime {}
    impl PartialOrdSpecImpl for NaiveDateTime {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &NaiveDateTime) -> Option<Ordering> { Some(dt_cmp(*self, *o)) }
    }
    impl PartialOrd for NaiveDateTime { #[verifier::external_body] fn partial_cmp(&self, o: &NaiveDateTime) -> Option<Ordering> { unimplemented!() } }
    impl OrdSpecImpl for NaiveDateTime {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, o: &NaiveDateTime) -> Ordering { dt_cmp(*self, *o) }
    }
    impl Ord for NaiveDateTime { #[verifier::external_body] fn cmp(&self, o: &NaiveDateTime) -> Ordering { unimplemented!() } }

    // ---- instants in a time zone ----
    pub struct Utc;
    pub struct Local;
    #[verifier::external_body]
    #[derive(Clone, Copy, Debug)]
    pub struct FixedOffset { x: i32 }
    impl FixedOffset {
        pub uninterp spec fn secs(&self) -> int;
        pub broadcast axiom fn ax_range(&self) ensures -86400 < #[trigger] self.secs() < 86400;
        #[verifier::external_body]
        pub fn east_opt(secs: i32) -> (r: Option<FixedOffset>) ensures r is Some <==> -86400 < secs < 86400, r is Some ==> r->0.secs() == secs { unimplemented!() }
        #[verifier::external_body]
        pub fn local_minus_utc(&self) -> (r: i32) ensures r == self.secs() { unimplemented!() }
    }
    /// the offset a text stands for: described for a sign and four digits
    pub uninterp spec fn parsed_offset(s: Seq<char>) -> Option<FixedOffset>;
    pub broadcast axiom fn ax_parsed_offset(o: FixedOffset) requires #[trigger] o.secs() % 60 == 0
        ensures parsed_offset(seq![if o.secs() < 0 { '-' } else { '+' }] + two_text((if o.secs() < 0 { -o.secs() } else { o.secs() }) / 3600) + two_text((if o.secs() < 0 { -o.secs() } else { o.secs() }) / 60 % 60)) == Some(o);
    impl crate::xstd::str::FromStr for FixedOffset {
        type Err = ParseError;
        open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { parsed_offset(s) == Some(v) }
        open spec fn parse_err(s: Seq<char>) -> bool { parsed_offset(s) is None }
        #[verifier::external_body]
        fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[derive(Debug)]
    pub struct DateTime<T> { x: i64, t: core::marker::PhantomData<T> }
    impl<T> Clone for DateTime<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<T> Copy for DateTime<T> {}
    /// the local time's offset from UTC at an instant, in seconds
    pub uninterp spec fn offset_at(utc: NaiveDateTime) -> int;
    /// some instant at which local clocks show this time
    pub uninterp spec fn earliest_of(clock: NaiveDateTime) -> Option<DateTime<Local>>;
    pub uninterp spec fn local_at(utc: NaiveDateTime) -> DateTime<Local>;
    pub broadcast axiom fn ax_local_at(u: NaiveDateTime) ensures (#[trigger] local_at(u)).utc() == u;
    pub broadcast axiom fn ax_local(x: DateTime<Local>) ensures #![trigger x.utc()] local_at(x.utc()) == x;
    pub broadcast axiom fn ax_clock(x: DateTime<Local>)
        ensures #![trigger x.clock()] -86400 < offset_at(x.utc()) < 86400,
            x.utc().plain() ==> x.clock().plain() && x.clock().ns() == x.utc().ns() + offset_at(x.utc()) * 1000000000int;
    pub broadcast axiom fn ax_earliest(c: NaiveDateTime)
        ensures #![trigger earliest_of(c)] earliest_of(c) is Some ==> earliest_of(c)->0.clock() == c, earliest_of(c) is Some && c.plain() ==> earliest_of(c)->0.utc().plain();
    impl<T> DateTime<T> {
        pub uninterp spec fn utc(&self) -> NaiveDateTime;
        #[verifier::external_body]
        pub fn with_timezone(&self, tz: &Local) -> (r: DateTime<Local>) ensures r == local_at(self.utc()) { unimplemented!() }
    }
    impl DateTime<Local> {
        /// what the clock shows
        pub uninterp spec fn clock(&self) -> NaiveDateTime;
        #[verifier::external_body]
        pub fn date_naive(&self) -> (r: NaiveDate) ensures r == self.clock().dt() { unimplemented!() }
        #[verifier::external_body]
        pub fn naive_local(&self) -> (r: NaiveDateTime) ensures r == self.clock() { unimplemented!() }
        #[verifier::external_body]
        pub fn offset(&self) -> (r: &FixedOffset) ensures r.secs() == offset_at(self.utc()) { unimplemented!() }
        #[verifier::external_body]
        pub fn format<'a>(&self, f: &'a str) -> (r: format::DelayedFormat<format::StrftimeItems<'a>>)
            ensures r.text() == fmt_dt(self.clock(), f@) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct LocalResult { x: i64 }
    impl LocalResult {
        pub uninterp spec fn clock(&self) -> NaiveDateTime;
        #[verifier::external_body]
        pub fn earliest(self) -> (r: Option<DateTime<Local>>) ensures r == earliest_of(self.clock()) { unimplemented!() }
    }
    impl AddSpecImpl<TimeDelta> for DateTime<Local> {
        open spec fn obeys_add_spec() -> bool { false }
        open spec fn add_req(self, rhs: TimeDelta) -> bool { ns_ok(self.utc().ns() + rhs.ns()) }
        open spec fn add_spec(self, rhs: TimeDelta) -> DateTime<Local> { self }
    }
    impl Add<TimeDelta> for DateTime<Local> {
        type Output = DateTime<Local>;
        #[verifier::external_body]
        fn add(self, rhs: TimeDelta) -> (r: DateTime<Local>) ensures self.utc().plain() ==> r.utc().plain() && r.utc().ns() == self.utc().ns() + rhs.ns() && r == local_at(dt_at(r.utc().ns())) { unimplemented!() }
    }
    pub mod format {
        use vstd::prelude::*;
        use core::marker::PhantomData;
        pub struct StrftimeItems<'a> { p: PhantomData<&'a ()> }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct DelayedFormat<T> { p: PhantomData<T> }
        impl<T> DelayedFormat<T> { pub uninterp spec fn text(&self) -> Seq<char>; }
        impl<T> crate::xstd::fmt::Display for DelayedFormat<T> {
            open spec fn disp(&self) -> Seq<char> { self.text() }
            #[verifier::external_body]
            fn fmt(&self, f: &mut crate::xstd::fmt::Formatter<'_>) -> (r: crate::xstd::fmt::Result) { unimplemented!() }
        }
    }
    pub proof fn lemma_dt_at(ns: int)
        requires ns_ok(ns)
        ensures dt_at(ns).ns() == ns, dt_at(ns).plain()
    {
        broadcast use group_chrono;
        let d = 86400000000000int;
        assert(ns == (ns / d) * d + ns % d) by (nonlinear_arith) requires d == 86400000000000int;
        assert(0 <= ns % d < d);
        let r = ns % d;
        assert(r == (r / 1000000000int) * 1000000000int + r % 1000000000int);
        assert(ns % 1000000000int == r % 1000000000int) by {
            assert(d == 86400000000000int);
            vstd::arithmetic::div_mod::lemma_mod_mod(ns, 1000000000int, 86400);
        }
    }
    pub broadcast group group_parsed { ax_parsed_date, ax_parsed_date_t, ax_parsed_dt, ax_parsed_dt_t, ax_parsed_dtz, ax_parsed_dtz_z }
    pub broadcast group group_chrono { ax_span_of, ax_span, ax_ymd, ax_date, ax_date_at, ax_day, ax_years, ax_fmt_date, ax_fmt_dt, ax_fmt_dtz, ax_dt_of, ax_dt, FixedOffset::ax_range, ax_local_at, ax_local, ax_clock, ax_earliest }
}
