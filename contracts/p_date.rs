//@ props C15
pub mod date {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use vstd::std_specs::convert::*;
    use core::cmp::Ordering;
    use crate::xstd::prelude::*;
    use crate::chrono::{NaiveDate, NaiveDateTime, Local, TimeDelta, dt_at, date_at, local_at, earliest_of, int_cmp, dt_cmp, whole_days, day_ok, ns_ok, dt_text, date_text, y4, whole, span_of, dt_of};
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};

    //@ item crate::properties::date::DateTime
    //@ derived crate::properties::date::DateTime | Clone
    //@ derived crate::properties::date::DateTime | Copy
    //@ derived crate::properties::date::DateTime | PartialEq
    impl Clone for DateTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for DateTime {}
    impl PartialEqSpecImpl for DateTime {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &DateTime) -> bool { *self == *o }
    }
    impl PartialEq for DateTime { #[verifier::external_body] fn eq(&self, o: &DateTime) -> bool { unimplemented!() } }
    impl Eq for DateTime {}
    //@ item crate::properties::date::Date
    //@ derived crate::properties::date::Date | Clone
    //@ derived crate::properties::date::Date | Copy
    //@ derived crate::properties::date::Date | PartialEq
    impl Clone for Date { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for Date {}
    impl PartialEqSpecImpl for Date {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Date) -> bool { *self == *o }
    }
    impl PartialEq for Date { #[verifier::external_body] fn eq(&self, o: &Date) -> bool { unimplemented!() } }
    impl Eq for Date {}

    impl DateTime {
        /// what the clock shows
        pub open spec fn clock(&self) -> NaiveDateTime { match self { DateTime::Naive(n) => *n, DateTime::Local(l) => l.clock() } }
        /// not within a leap second
        pub open spec fn plain(&self) -> bool { match self { DateTime::Naive(n) => n.plain(), DateTime::Local(l) => l.utc().plain() } }
        /// a span later, on the same kind of clock
        pub open spec fn plus(&self, ns: int) -> DateTime {
            match self { DateTime::Naive(n) => DateTime::Naive(dt_at(n.ns() + ns)), DateTime::Local(l) => DateTime::Local(local_at(dt_at(l.utc().ns() + ns))) }
        }
        pub open spec fn can_plus(&self, ns: int) -> bool {
            match self { DateTime::Naive(n) => ns_ok(n.ns() + ns), DateTime::Local(l) => ns_ok(l.utc().ns() + ns) }
        }
        /// the clock as YYYYMMDDTHHMMSS, with a Z when it is an instant
        pub open spec fn text(&self) -> Seq<char> { match self { DateTime::Naive(n) => dt_text(*n), DateTime::Local(l) => dt_text(l.clock()) + seq!['Z'] } }
        /// within the years 0 to 9999, not in a leap second
        pub open spec fn printable(&self) -> bool { y4(self.clock().dt()) && self.plain() }
    }
    //@ impl crate::properties::date | DateTime | inherent
    //@ method date_naive
    //@ ret r
        ensures r == self.clock().dt()
    //@ end
    //@ method format
    //@ ret r
        ensures self.printable() && (self is Naive ==> fmt@ == "%Y%m%dT%H%M%S"@) && (self is Local ==> fmt@ == "%Y%m%dT%H%M%SZ"@) ==> r.text() == self.text()
    //@ end
    //@ method naive
    //@ ret r
        ensures r == self.clock()
    //@ end
    //@ endimpl
    //@ impl crate::properties::date | Default for DateTime
    //@ method default
    //@ ret r
        ensures r is Naive, r.clock().ns() == 0, r.plain()
    //@ end
    //@ endimpl

    // ---- conversions keep the day and the time ----
    impl FromSpecImpl<Date> for DateTime {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: Date) -> DateTime { v.start() }
    }
    //@ impl crate::properties::date | From<Date> for DateTime
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl FromSpecImpl<NaiveDateTime> for DateTime {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: NaiveDateTime) -> DateTime { DateTime::Naive(v) }
    }
    //@ impl crate::properties::date | From<chrono::NaiveDateTime> for DateTime
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl FromSpecImpl<crate::chrono::DateTime<Local>> for DateTime {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: crate::chrono::DateTime<Local>) -> DateTime { DateTime::Local(v) }
    }
    //@ impl crate::properties::date | From<chrono::DateTime<chrono::Local>> for DateTime
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl FromSpecImpl<DateTime> for NaiveDateTime {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: DateTime) -> NaiveDateTime { v.clock() }
    }
    //@ impl crate::properties::date | From<DateTime> for chrono::NaiveDateTime
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<DateTime> for crate::chrono::DateTime<Local> {
        open spec fn obeys_try_from_spec() -> bool { true }
        open spec fn try_from_spec(v: DateTime) -> Result<crate::chrono::DateTime<Local>, crate::Error> {
            match v {
                DateTime::Naive(n) => match earliest_of(n) { Some(x) => Ok(x), None => Err(crate::Error::Local(v)) },
                DateTime::Local(l) => Ok(l),
            }
        }
    }
    //@ impl crate::properties::date | TryFrom<DateTime> for chrono::DateTime<chrono::Local>
    //@ method try_from
    //@ keep
    //@ end
    //@ endimpl

    // ---- arithmetic ----
    impl SubSpecImpl<DateTime> for DateTime {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: DateTime) -> bool { true }
        open spec fn sub_spec(self, rhs: DateTime) -> TimeDelta { span_of(self.clock().ns() - rhs.clock().ns()) }
    }
    //@ impl crate::properties::date | Sub for DateTime
    //@ method sub
    //@ ret r
        ensures self.plain() && rhs.plain() ==> r.ns() == self.clock().ns() - rhs.clock().ns()
    //@ end
    //@ endimpl
    impl SubSpecImpl<TimeDelta> for DateTime {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, rhs: TimeDelta) -> bool { ns_ok(self.clock().ns() - rhs.ns()) }
        open spec fn sub_spec(self, rhs: TimeDelta) -> NaiveDateTime { dt_at(self.clock().ns() - rhs.ns()) }
    }
    //@ impl crate::properties::date | Sub<chrono::Duration> for DateTime
    //@ method sub
    //@ ret r
        ensures self.plain() ==> r.plain() && r.ns() == self.clock().ns() - rhs.ns()
    //@ end
    //@ endimpl
    impl AddSpecImpl<TimeDelta> for DateTime {
        open spec fn obeys_add_spec() -> bool { false }
        open spec fn add_req(self, rhs: TimeDelta) -> bool { self.can_plus(rhs.ns()) }
        open spec fn add_spec(self, rhs: TimeDelta) -> DateTime { self.plus(rhs.ns()) }
    }
    //@ impl crate::properties::date | Add<chrono::TimeDelta> for DateTime
    //@ method add
    //@ ret r
        ensures self.plain() ==> r == self.plus(rhs.ns()) && r.plain()
    //@ end
    //@ endimpl
    /// moving by a span moves the clock (for an instant: the instant) by exactly that span
    pub proof fn lemma_plus(x: DateTime, ns: int)
        requires x.plain(), x.can_plus(ns)
        ensures x.plus(ns) is Naive <==> x is Naive,
            x is Naive ==> x.plus(ns)->Naive_0.ns() == x->Naive_0.ns() + ns,
            x is Local ==> x.plus(ns)->Local_0.utc().ns() == x->Local_0.utc().ns() + ns,
            x.plus(ns).plain()
    {
        let t = match x { DateTime::Naive(n) => n.ns() + ns, DateTime::Local(l) => l.utc().ns() + ns };
        crate::chrono::lemma_dt_at(t);
    }

    // ---- order ----
    impl PartialOrdSpecImpl for DateTime {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &DateTime) -> Option<Ordering> { Some(dt_cmp(self.clock(), o.clock())) }
    }
    impl OrdSpecImpl for DateTime {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, o: &DateTime) -> Ordering { dt_cmp(self.clock(), o.clock()) }
    }
    //@ impl crate::properties::date | PartialOrd for DateTime
    //@ method partial_cmp
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::date | Ord for DateTime
    //@ method cmp
    //@ keep
    //@ end
    //@ endimpl

    impl Date {
        pub open spec fn the_day(&self) -> NaiveDate { match self { Date::Date(d) => *d, Date::DateTime(dt) => dt.clock().dt() } }
        /// the date-time it starts at
        pub open spec fn start(&self) -> DateTime { match self { Date::Date(d) => DateTime::Naive(dt_of(*d, 0, 0)), Date::DateTime(dt) => *dt } }
        pub open spec fn plain(&self) -> bool { match self { Date::Date(d) => true, Date::DateTime(dt) => dt.plain() } }
        pub open spec fn plus(&self, ns: int) -> Date {
            match self { Date::Date(d) => Date::Date(date_at(d.day() + whole_days(ns))), Date::DateTime(dt) => Date::DateTime(dt.plus(ns)) }
        }
        pub open spec fn can_plus(&self, ns: int) -> bool {
            match self { Date::Date(d) => day_ok(d.day() + whole_days(ns)), Date::DateTime(dt) => dt.can_plus(ns) }
        }
        pub open spec fn text(&self) -> Seq<char> { match self { Date::Date(d) => date_text(*d), Date::DateTime(dt) => dt.text() } }
        pub open spec fn printable(&self) -> bool { match self { Date::Date(d) => y4(*d), Date::DateTime(dt) => dt.printable() } }
    }
    pub open spec fn date_cmp(a: Date, b: Date) -> Ordering {
        match (a, b) {
            (Date::DateTime(x), Date::DateTime(y)) => dt_cmp(x.clock(), y.clock()),
            _ => int_cmp(a.the_day().day(), b.the_day().day()),
        }
    }
    //@ impl crate::properties::date | Date | inherent
    //@ method date_naive
    //@ ret r
        ensures r == self.the_day()
    //@ end
    //@ method format
    //@ ret r
        ensures self.printable() && (self is Date ==> fmt@ == "%Y%m%d"@)
            && (self matches Date::DateTime(dt) ==> (dt is Naive ==> fmt@ == "%Y%m%dT%H%M%S"@) && (dt is Local ==> fmt@ == "%Y%m%dT%H%M%SZ"@)) ==> r.text() == self.text()
    //@ end
    //@ method has_time
    //@ ret r
        ensures r == (self is DateTime)
    //@ end
    //@ endimpl
    //@ impl crate::properties::date | Default for Date
    //@ method default
    //@ ret r
        ensures r is DateTime, r.start().clock().ns() == 0
    //@ end
    //@ endimpl
    impl FromSpecImpl<DateTime> for Date {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: DateTime) -> Date { Date::DateTime(v) }
    }
    //@ impl crate::properties::date | From<DateTime> for Date
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl FromSpecImpl<NaiveDate> for Date {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: NaiveDate) -> Date { Date::Date(v) }
    }
    //@ impl crate::properties::date | From<chrono::NaiveDate> for Date
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl FromSpecImpl<crate::chrono::DateTime<Local>> for Date {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: crate::chrono::DateTime<Local>) -> Date { Date::DateTime(DateTime::Local(v)) }
    }
    //@ impl crate::properties::date | From<chrono::DateTime<chrono::Local>> for Date
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl FromSpecImpl<NaiveDateTime> for Date {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: NaiveDateTime) -> Date { Date::DateTime(DateTime::Naive(v)) }
    }
    //@ impl crate::properties::date | From<chrono::NaiveDateTime> for Date
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl FromSpecImpl<Date> for NaiveDate {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: Date) -> NaiveDate { v.the_day() }
    }
    //@ impl crate::properties::date | From<Date> for chrono::NaiveDate
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl PartialOrdSpecImpl for Date {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Date) -> Option<Ordering> { Some(date_cmp(*self, *o)) }
    }
    impl OrdSpecImpl for Date {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, o: &Date) -> Ordering { date_cmp(*self, *o) }
    }
    //@ impl crate::properties::date | PartialOrd for Date
    //@ method partial_cmp
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::date | Ord for Date
    //@ method cmp
    //@ keep
    //@ end
    //@ endimpl
    pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
    /// comparison is antisymmetric (and total: every pair has an order)
    pub proof fn lemma_cmp_rev(a: Date, b: Date)
        ensures date_cmp(a, b) == rev(date_cmp(b, a)), date_cmp(a, a) is Equal
    {}
    pub open spec fn same_kind(a: Date, b: Date) -> bool { a is Date <==> b is Date }
    /// and transitive among values of one kind
    pub proof fn lemma_cmp_trans(a: Date, b: Date, c: Date)
        requires same_kind(a, b), same_kind(b, c), !(date_cmp(a, b) is Greater), !(date_cmp(b, c) is Greater)
        ensures !(date_cmp(a, c) is Greater),
            date_cmp(a, b) is Less || date_cmp(b, c) is Less ==> date_cmp(a, c) is Less
    {}
    /// plain dates compare equal only when they are the same day; floating times only when they are the same
    pub proof fn lemma_cmp_equal(a: Date, b: Date)
        ensures a is Date && b is Date ==> (date_cmp(a, b) is Equal <==> a == b),
            a is DateTime && b is DateTime && a->DateTime_0 is Naive && b->DateTime_0 is Naive ==> (date_cmp(a, b) is Equal <==> a == b)
    {
        if a is Date && b is Date && date_cmp(a, b) is Equal { assert(date_at(a->Date_0.day()) == date_at(b->Date_0.day())); }
        if a is DateTime && b is DateTime && a->DateTime_0 is Naive && b->DateTime_0 is Naive && date_cmp(a, b) is Equal {
            let x = a->DateTime_0->Naive_0;
            let y = b->DateTime_0->Naive_0;
            assert(date_at(x.dt().day()) == date_at(y.dt().day()));
            assert(dt_of(x.dt(), x.sec(), x.frac()) == dt_of(y.dt(), y.sec(), y.frac()));
        }
    }
    impl AddSpecImpl<TimeDelta> for Date {
        open spec fn obeys_add_spec() -> bool { false }
        open spec fn add_req(self, rhs: TimeDelta) -> bool { self.can_plus(rhs.ns()) }
        open spec fn add_spec(self, rhs: TimeDelta) -> Date { self.plus(rhs.ns()) }
    }
    //@ impl crate::properties::date | Add<chrono::TimeDelta> for Date
    //@ method add
    //@ ret r
        ensures self.plain() ==> r == self.plus(rhs.ns()) && r.plain()
    //@ end
    //@ endimpl

    // ---- text ----
    //@ props C06,C11
    impl DateTime {
        /// what {} prints
        pub open spec fn shown(&self) -> Seq<char> {
            match self { DateTime::Naive(n) => crate::chrono::fmt_dt(*n, "%Y%m%dT%H%M%S"@), DateTime::Local(l) => crate::chrono::fmt_dt(l.clock(), "%Y%m%dT%H%M%SZ"@) }
        }
    }
    impl Date {
        pub open spec fn shown(&self) -> Seq<char> { match self { Date::Date(d) => crate::chrono::fmt_date(*d, "%Y%m%d"@), Date::DateTime(dt) => dt.shown() } }
    }
    pub proof fn lemma_shown(x: DateTime)
        requires x.printable()
        ensures x.shown() == x.text()
    {}
    pub proof fn lemma_date_shown(x: Date)
        requires x.printable()
        ensures x.shown() == x.text()
    {}
    //@ impl crate::properties::date | Display for DateTime
    open spec fn disp(&self) -> Seq<char> { self.shown() }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::date | Display for Date
    open spec fn disp(&self) -> Seq<char> { self.shown() }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    // text of a date: the first ten characters tell dates, floating times and instants apart
    //@ impl crate::properties::date | FromStr for DateTime
    /// a floating date-time reads back; text ending in Z is an instant, other text floating
    open spec fn parse_ok(s: Seq<char>, v: DateTime) -> bool {
        &&& forall|x: NaiveDateTime| whole(x) && s == #[trigger] dt_text(x) ==> v == DateTime::Naive(x)
        &&& v is Local <==> s.len() > 0 && s.last() == 'Z'
    }
    open spec fn parse_err(s: Seq<char>) -> bool { forall|x: NaiveDateTime| whole(x) ==> s != #[trigger] dt_text(x) }
    //@ method from_str
    //@ head
        broadcast use crate::chrono::group_parsed;
    //@ end
    //@ endimpl
    //@ impl crate::properties::date | FromStr for Date
    open spec fn parse_ok(s: Seq<char>, v: Date) -> bool {
        &&& forall|x: NaiveDateTime| whole(x) && s == #[trigger] dt_text(x) ==> v == Date::DateTime(DateTime::Naive(x))
        &&& forall|x: NaiveDate| y4(x) && s == #[trigger] date_text(x) ==> v == Date::Date(x)
    }
    open spec fn parse_err(s: Seq<char>) -> bool {
        (forall|x: NaiveDateTime| whole(x) ==> s != #[trigger] dt_text(x)) && (forall|x: NaiveDate| y4(x) ==> s != #[trigger] date_text(x))
    }
    //@ method from_str
    //@ head
        broadcast use crate::chrono::group_parsed;
        proof {
            assert forall|x: NaiveDateTime| whole(x) && s@ == #[trigger] dt_text(x) implies s@.contains('T') by { assert(dt_text(x)[8] == 'T'); }
        }
    //@ end
    //@ endimpl
    //@ props
}
