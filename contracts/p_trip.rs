// Values written and read again.
pub mod trip {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{blen, joined, has};
    use crate::xstd::collections::{BTreeMap, kv};
    use crate::xstd::fmt::{nat_text, num_text, two_text, digit};
    use crate::xstd::num::{is_digit, all_digits, dec, int_text};
    use crate::xstd::string::string_of;
    use crate::ser::*;
    use crate::grammar::*;
    use crate::again::*;
    use crate::spans::*;
    use crate::prop::*;
    use crate::leaf::{some_params, items};
    use crate::parser::datatype::*;
    use crate::properties::*;
    use crate::properties::period::{StartEnd, StartDur};
    use crate::chrono::{TimeDelta, FixedOffset, NaiveDate, NaiveDateTime, whole, y4, dt_text, date_text};
    use crate::ContentLine;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11
    /// the line carries this text and these parameters
    pub open spec fn says(cl: ContentLine, text: Seq<char>, es: Seq<(String, String)>) -> bool { cl.value@ == text && cl.params.texts() == kept(es) }
    /// values that can be written and read back
    pub trait Kept: Serialize + Sized {
        spec fn fit(&self) -> bool;
        /// the parameters it is written with
        spec fn params(&self) -> Seq<(String, String)>;
        spec fn same(&self, o: &Self) -> bool;
        proof fn written(x: Self)
            requires x.fit()
            ensures Self::comp() is None, Self::exact(), x.attr_spec() == attr_of(x.params()), params_fit(x.params()), x.ser().len() > 0, no_breaks(x.ser());
    }
    /// properties of one value
    pub trait Back<V: Kept>: Prop<V = V> {
        spec fn can(x: V) -> bool;
        proof fn named() ensures prop_name(Self::name());
        proof fn back(x: V, cl: ContentLine)
            requires x.fit(), Self::can(x), says(cl, x.ser(), x.params())
            ensures !Self::err(cl), forall|v: V| #[trigger] Self::ok(cl, v) ==> x.same(&v);
    }
    pub open spec fn all_fit<E: Kept>(xs: Seq<E>) -> bool { forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).fit() }
    pub open spec fn all_same<E: Kept>(xs: Seq<E>, vs: Seq<E>) -> bool { xs.len() == vs.len() && forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).same(&vs[k]) }
    /// properties of several values: on one line when none has parameters, on one line each otherwise
    pub trait BackList<E: Kept>: Prop<V = Vec<E>> {
        proof fn list_named() ensures prop_name(Self::name());
        proof fn back_one(x: E, cl: ContentLine)
            requires x.fit(), says(cl, x.ser(), x.params())
            ensures !Self::err(cl), forall|v: Vec<E>| #[trigger] Self::ok(cl, v) ==> all_same(seq![x], v@);
        proof fn back_list(xs: Seq<E>, cl: ContentLine)
            requires all_fit(xs), crate::lines::plain(xs), xs.len() > 0, says(cl, list_text(xs), Seq::empty())
            ensures !Self::err(cl), forall|v: Vec<E>| #[trigger] Self::ok(cl, v) ==> all_same(xs, v@);
    }

    // ---- texts ----
    pub open spec fn plain_text(s: Seq<char>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != ';' && s[k] != ',' && s[k] != '\r' && s[k] != '\n' }
    pub open spec fn params_kept(es: Seq<(String, String)>) -> bool { params_fit(es) && forall|k: int| 0 <= k < es.len() ==> no_breaks((#[trigger] es[k]).1@) }
    pub proof fn lemma_params_kept(p: BTreeMap<String, String>)
        requires params_kept(p@)
        ensures kept(p@) == p.texts()
    { lemma_kept_all(p@); }
    impl Kept for Text {
        open spec fn fit(&self) -> bool { plain_text(self.text@) && params_kept(self.params@) }
        open spec fn params(&self) -> Seq<(String, String)> { self.params@ }
        open spec fn same(&self, o: &Self) -> bool { o.text@ == self.text@ && o.params.texts() == self.params.texts() }
        proof fn written(x: Self) { lemma_esc_plain(x.text@); }
    }
    impl Kept for Uri {
        open spec fn fit(&self) -> bool { plain_text(self.uri@) && params_kept(self.params@) }
        open spec fn params(&self) -> Seq<(String, String)> { self.params@ }
        open spec fn same(&self, o: &Self) -> bool { o.uri@ == self.uri@ && o.params.texts() == self.params.texts() }
        proof fn written(x: Self) { lemma_esc_plain(x.uri@); }
    }
    impl Kept for ContentLine {
        open spec fn fit(&self) -> bool { plain_text(self.value@) && params_kept(self.params@) }
        open spec fn params(&self) -> Seq<(String, String)> { self.params@ }
        open spec fn same(&self, o: &Self) -> bool { o.value@ == self.value@ && o.params.texts() == self.params.texts() }
        proof fn written(x: Self) { lemma_esc_plain(x.value@); }
    }
    pub proof fn lemma_text_back(x: Text, cl: ContentLine, v: Text)
        requires x.fit(), says(cl, x.ser(), x.params()), v.text@ == cl.value@, v.params == cl.params
        ensures x.same(&v)
    { lemma_esc_plain(x.text@); lemma_params_kept(x.params); }
    pub proof fn lemma_uri_back(x: Uri, cl: ContentLine, v: Uri)
        requires x.fit(), says(cl, x.ser(), x.params()), v.uri@ == cl.value@, v.params == cl.params
        ensures x.same(&v)
    { lemma_esc_plain(x.uri@); lemma_params_kept(x.params); }

    // ---- numbers ----
    pub proof fn lemma_nat_text(n: int)
        requires n >= 0
        ensures all_digits(nat_text(n)), nat_text(n).len() > 0, dec(nat_text(n)) == n
        decreases n
    {
        if n < 10 {
            assert(nat_text(n).drop_last().len() == 0);
            assert(dec(nat_text(n).drop_last()) == 0);
            assert(nat_text(n).last() == digit(n));
        } else {
            lemma_nat_text(n / 10);
            assert(nat_text(n).drop_last() =~= nat_text(n / 10));
            assert(nat_text(n).last() == digit(n % 10));
        }
    }
    pub proof fn lemma_digits_safe(s: Seq<char>)
        requires all_digits(s)
        ensures no_breaks(s)
    { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' by { assert(is_digit(s[k])); } }
    pub proof fn lemma_num_back(n: int, v: int)
        requires n >= 0
        ensures int_text(num_text(n), n, false), int_text(num_text(n), v, false) ==> v == n, num_text(n).len() > 0, no_breaks(num_text(n))
    {
        broadcast use crate::xstd::num::lemma_int_text;
        lemma_nat_text(n); lemma_digits_safe(nat_text(n));
        assert(Seq::<char>::empty() + nat_text(n) =~= nat_text(n));
        assert(int_text(num_text(n), n, false));
    }
    impl Kept for u8 {
        open spec fn fit(&self) -> bool { true }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { lemma_num_back(x as int, 0); }
    }
    impl Kept for u32 {
        open spec fn fit(&self) -> bool { true }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { lemma_num_back(x as int, 0); }
    }

    // ---- parameters that say what kind of value it is ----
    pub open spec fn kind(t: Seq<char>) -> Seq<(String, String)> { seq![(string_of("VALUE"@), string_of(t))] }
    pub proof fn lemma_kind(t: Seq<char>)
        requires t == "DATE"@ || t == "PERIOD"@ || t == "DURATION"@ || t == "DATE-TIME"@
        ensures attr_of(kind(t)) == Some("VALUE="@ + t), params_fit(kind(t)),
            kept(kind(t)) == Map::<Seq<char>, Seq<char>>::empty().insert("VALUE"@, t)
    {
        broadcast use {crate::xstd::string::ax_str_of, crate::xstd::string::ax_string_of};
        reveal_strlit("VALUE"); reveal_strlit("VALUE="); reveal_strlit("DATE"); reveal_strlit("PERIOD"); reveal_strlit("DURATION"); reveal_strlit("DATE-TIME");
        let es = kind(t);
        assert(no_breaks(t)); assert(!special(t)); assert(!t.contains('"'));
        lemma_pv_keeps(t);
        assert(es.drop_last().len() == 0);
        assert(params_semi(es.drop_last()) =~= Seq::<char>::empty());
        assert(es.last().1.refd()@ == t);
        assert(es.last().0.ts() == "VALUE"@);
        assert(params_text(es) =~= "VALUE="@ + t);
        assert forall|k: int| 0 <= k < es.len() implies param_fit(#[trigger] es[k]) && no_breaks(es[k].1@) by { assert(k == 0); }
        lemma_kept_all(es);
        assert(kv(es.drop_last()) =~= Map::empty());
        assert(kv(es) =~= Map::<Seq<char>, String>::empty().insert("VALUE"@, string_of(t)));
        assert(kept(es) =~= Map::<Seq<char>, Seq<char>>::empty().insert("VALUE"@, t));
    }

    // ---- dates ----
    pub proof fn lemma_two(n: int)
        requires 0 <= n < 100
        ensures two_text(n).len() == 2, all_digits(two_text(n))
    { let t = two_text(n); assert(t[0] == digit(n / 10) && t[1] == digit(n % 10)); assert forall|k: int| 0 <= k < t.len() implies is_digit(#[trigger] t[k]) by { if k == 0 {} else { assert(k == 1); } } }
    /// no line break, comma or slash
    pub open spec fn date_like(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> is_digit(#[trigger] s[k]) || s[k] == 'T' || s[k] == 'Z' }
    pub proof fn lemma_date_like(a: Seq<char>, b: Seq<char>)
        requires date_like(a), date_like(b)
        ensures date_like(a + b)
    { assert forall|k: int| 0 <= k < (a + b).len() implies is_digit(#[trigger] (a + b)[k]) || (a + b)[k] == 'T' || (a + b)[k] == 'Z' by { if k < a.len() { assert((a + b)[k] == a[k]); } else { assert((a + b)[k] == b[k - a.len()]); } } }
    pub proof fn lemma_date_text(x: NaiveDate)
        requires y4(x)
        ensures date_like(date_text(x)), date_text(x).len() == 8, is_digit(date_text(x)[0])
    {
        broadcast use crate::chrono::group_chrono;
        let (a, b, c, d) = (two_text(x.y() / 100), two_text(x.y() % 100), two_text(x.m()), two_text(x.d()));
        lemma_two(x.y() / 100); lemma_two(x.y() % 100); lemma_two(x.m()); lemma_two(x.d());
        lemma_date_like(a, b); lemma_date_like(a + b, c); lemma_date_like(a + b + c, d);
        assert(date_text(x)[0] == a[0]);
    }
    pub proof fn lemma_dt_text(x: NaiveDateTime)
        requires whole(x)
        ensures date_like(dt_text(x)), dt_text(x).len() == 15, is_digit(dt_text(x)[0]), is_digit(dt_text(x).last())
    {
        broadcast use crate::chrono::group_chrono;
        let (a, b, c, d) = (date_text(x.dt()), two_text(x.sec() / 3600), two_text(x.sec() / 60 % 60), two_text(x.sec() % 60));
        lemma_date_text(x.dt()); lemma_two(x.sec() / 3600); lemma_two(x.sec() / 60 % 60); lemma_two(x.sec() % 60);
        lemma_date_like(a, seq!['T']); lemma_date_like(a + seq!['T'], b); lemma_date_like(a + seq!['T'] + b, c); lemma_date_like(a + seq!['T'] + b + c, d);
        assert(dt_text(x)[0] == a[0]);
        assert(dt_text(x).last() == d[1]);
        assert(is_digit(d[1]));
    }
    impl Kept for DateTime {
        /// whole seconds of the years 0 to 9999; instants where local time is UTC
        open spec fn fit(&self) -> bool { match self { DateTime::Naive(n) => whole(*n), DateTime::Local(l) => whole(l.utc()) && l.clock() == l.utc() } }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { lemma_dt(x); }
    }
    /// the text of a date-time, and its only reading
    pub proof fn lemma_dt(x: DateTime)
        requires x.fit()
        ensures x.shown() == x.text(), date_like(x.shown()), x.shown().len() >= 15, is_digit(x.shown()[0]), no_breaks(x.shown()),
            !dt_err(x.shown()), forall|v: DateTime| #[trigger] dt_ok(x.shown(), v) ==> v == x,
            crate::chrono::parsed_date(x.shown()) is None,
    {
        broadcast use {crate::chrono::group_parsed, crate::chrono::group_chrono};
        crate::properties::date::lemma_shown(x);
        let n = match x { DateTime::Naive(n) => n, DateTime::Local(l) => l.utc() };
        lemma_dt_text(n);
        let s = x.shown();
        if x is Local { lemma_date_like(dt_text(n), seq!['Z']); assert(s =~= dt_text(n).push('Z')); assert(s.drop_last() =~= dt_text(n)); }
        assert(crate::xstd::trimmed(dt_text(n), 'Z') == dt_text(n));
        assert(crate::xstd::trimmed(s, 'Z') == dt_text(n));
        assert(crate::chrono::parsed_dt(dt_text(n)) == Some(n));
        assert(dt_text(n)[8] == 'T'); assert(s[8] == 'T'); assert(s.contains('T'));
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' by { assert(is_digit(s[k]) || s[k] == 'T' || s[k] == 'Z'); }
        assert(zulu(s) == (x is Local));
        assert forall|v: DateTime| #[trigger] dt_ok(s, v) implies v == x by {
            match v { DateTime::Local(l) => { assert(l.utc() == n); }, DateTime::Naive(m) => {} }
        }
    }
    impl Kept for Date {
        open spec fn fit(&self) -> bool { match self { Date::Date(d) => y4(*d), Date::DateTime(t) => t.fit() } }
        open spec fn params(&self) -> Seq<(String, String)> { match self { Date::Date(_) => kind("DATE"@), Date::DateTime(_) => Seq::empty() } }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) {
            lemma_dodt(x);
            lemma_kind("DATE"@);
            reveal_strlit("VALUE="); reveal_strlit("DATE"); reveal_strlit("VALUE=DATE");
            assert("VALUE="@ + "DATE"@ =~= "VALUE=DATE"@);
        }
    }
    pub proof fn lemma_dodt(x: Date)
        requires x.fit()
        ensures date_like(x.shown()), x.shown().len() >= 8, is_digit(x.shown()[0]), no_breaks(x.shown()),
            !dodt_err(x.shown()), forall|v: Date| #[trigger] dodt_ok(x.shown(), v) ==> v == x,
    {
        broadcast use {crate::chrono::group_parsed, crate::chrono::group_chrono};
        match x {
            Date::Date(d) => {
                lemma_date_text(d);
                let s = x.shown();
                assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' by { assert(is_digit(s[k]) || s[k] == 'T' || s[k] == 'Z'); }
                assert(crate::chrono::parsed_date(s) == Some(d));
            },
            Date::DateTime(t) => { lemma_dt(t); },
        }
    }

    // ---- durations ----
    impl Kept for TimeDelta {
        open spec fn fit(&self) -> bool { self.ns() % 1000000000 == 0 }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { lemma_span(x); }
    }
    pub open spec fn secs_text(n: int) -> Seq<char> { if n == 0 { seq!['P', '0', 'D'] } else { seq!['P', 'T'] + nat_text(n) + seq!['S'] } }
    pub proof fn lemma_no_part(s: Seq<char>, unit: char)
        requires s.len() == 0 || !is_digit(s[0])
        ensures part(s, unit) is None
    { reveal(part); lemma_run(Cls::Digit, s); if run(Cls::Digit, s) > 0 { assert(cls(Cls::Digit, s[0])); } }
    pub proof fn lemma_digits_part(n: int, u: char, unit: char)
        requires 0 <= n <= i64::MAX, !is_digit(u)
        ensures part(nat_text(n) + seq![u], unit) == if u == unit { Some((n, Seq::<char>::empty())) } else { None }
    {
        reveal(part);
        lemma_nat_text(n);
        let s = nat_text(n) + seq![u];
        assert forall|j: int| 0 <= j < nat_text(n).len() implies cls(Cls::Digit, #[trigger] s[j]) by { assert(s[j] == nat_text(n)[j]); assert(is_digit(nat_text(n)[j])); }
        assert(s[nat_text(n).len() as int] == u);
        lemma_run_is(Cls::Digit, s, nat_text(n).len() as int);
        assert(front(Cls::Digit, s) =~= nat_text(n));
        assert(back(Cls::Digit, s) =~= seq![u]);
        broadcast use crate::xstd::lemma_prefix_char;
        assert(seq![u].skip(1) =~= Seq::<char>::empty());
    }
    pub proof fn lemma_secs(n: int)
        requires 0 <= n <= i64::MAX
        ensures span(secs_text(n)) == Some((n * 1000000000, Seq::<char>::empty())), span(seq!['-'] + secs_text(n)) == Some((-n * 1000000000, Seq::<char>::empty()))
    {
        broadcast use crate::xstd::lemma_prefix_char;
        let s = secs_text(n);
        let t = s.skip(1);
        let m = seq!['-'] + s;
        assert(m.skip(1) =~= s);
        assert(s[0] == 'P');
        assert(m[0] == '-');
        if n == 0 {
            lemma_digits_part(0, 'D', 'W');
            lemma_digits_part(0, 'D', 'D');
            assert(nat_text(0) + seq!['D'] =~= t);
            assert(clock(Seq::<char>::empty()) is None);
        } else {
            let u = nat_text(n) + seq!['S'];
            assert(t =~= seq!['T'] + u);
            lemma_no_part(t, 'W'); lemma_no_part(t, 'D');
            assert(t.skip(1) =~= u);
            lemma_digits_part(n, 'S', 'H'); lemma_digits_part(n, 'S', 'M'); lemma_digits_part(n, 'S', 'S');
            assert(clock(t) == Some((0int, 0int, n, Seq::<char>::empty())));
        }
    }
    pub proof fn lemma_span(x: TimeDelta)
        requires x.fit()
        ensures x.disp().len() > 0, no_breaks(x.disp()), span_text(x.disp(), x.ns()), !no_span_text(x.disp()),
            forall|ns: int| #[trigger] span_text(x.disp(), ns) ==> ns == x.ns(),
            x.ns() >= 0 ==> x.disp()[0] == 'P',
            forall|k: int| 0 <= k < x.disp().len() ==> #[trigger] x.disp()[k] != ',' && x.disp()[k] != '/',
    {
        broadcast use {crate::chrono::ax_span_text, crate::chrono::ax_span};
        reveal(span_at); reveal(no_span);
        let s = x.disp();
        let n = (if x.ns() < 0 { -x.ns() } else { x.ns() }) / 1000000000;
        assert(x.ns() == if x.ns() < 0 { -n * 1000000000 } else { n * 1000000000 });
        assert(0 <= n <= i64::MAX);
        lemma_nat_text(n);
        lemma_secs(n);
        assert(s =~= if x.ns() < 0 { seq!['-'] + secs_text(n) } else { secs_text(n) });
        assert(span(s) == Some((x.ns(), Seq::<char>::empty())));
        let t = secs_text(n);
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] != ',' && t[k] != '/' && t[k] != '\r' && t[k] != '\n' by {
            if n > 0 && 2 <= k < t.len() - 1 { assert(t[k] == nat_text(n)[k - 2]); assert(is_digit(nat_text(n)[k - 2])); }
        }
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != ',' && s[k] != '/' && s[k] != '\r' && s[k] != '\n' by {
            if x.ns() < 0 { if k > 0 { assert(s[k] == t[k - 1]); } } else { assert(s[k] == t[k]); }
        }
        assert(span_at(s, Seq::empty(), x.ns()));
    }

    // ---- tokens ----
    impl Kept for Class {
        /// names of one's own are written in capitals
        open spec fn fit(&self) -> bool { match self { Class::Custom(c) => plain_text(c@) && crate::xstd::uppercase(c@) == c@ && c@ != "PUBLIC"@ && c@ != "PRIVATE"@ && c@ != "CONFIDENTIAL"@, _ => true } }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { match (self, o) { (Class::Custom(a), Class::Custom(b)) => a@ == b@, (Class::Custom(_), _) => false, (_, Class::Custom(_)) => false, _ => *o == *self } }
        proof fn written(x: Self) { lemma_class(x); }
    }
    pub proof fn lemma_class(x: Class)
        requires x.fit()
        ensures plain_text(x.disp()), x.ser() == x.disp(), no_breaks(x.ser()), forall|v: Class| #[trigger] class::parsed(x.ser(), v) ==> x.same(&v)
    {
        reveal_strlit("PUBLIC"); reveal_strlit("PRIVATE"); reveal_strlit("CONFIDENTIAL");
        assert(plain_text(x.disp()));
        lemma_esc_plain(x.disp());
        assert("PUBLIC"@.len() != "PRIVATE"@.len());
    }
    impl Kept for Status {
        open spec fn fit(&self) -> bool { true }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) {
            reveal_strlit("TENTATIVE"); reveal_strlit("CONFIRMED"); reveal_strlit("CANCELLED"); reveal_strlit("NEEDS-ACTION");
            reveal_strlit("COMPLETED"); reveal_strlit("IN-PROCESS"); reveal_strlit("DRAFT"); reveal_strlit("FINAL");
        }
    }
    impl Kept for TimeTransparency {
        open spec fn fit(&self) -> bool { true }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { reveal_strlit("OPAQUE"); reveal_strlit("TRANSPARENT"); }
    }
    impl Kept for FixedOffset {
        open spec fn fit(&self) -> bool { self.secs() % 60 == 0 }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { lemma_offset(x); }
    }
    pub proof fn lemma_offset(x: FixedOffset)
        requires x.fit()
        ensures x.ser().len() == 5, no_breaks(x.ser()), crate::chrono::parsed_offset(x.ser()) == Some(x)
    {
        broadcast use {crate::chrono::FixedOffset::ax_range, crate::chrono::ax_parsed_offset};
        let o = x.secs();
        let a = if o < 0 { -o } else { o };
        let s = offset_text(o);
        lemma_two(a / 3600); lemma_two(a / 60 % 60);
        let (p, q) = (two_text(a / 3600), two_text(a / 60 % 60));
        assert(s =~= seq![if o < 0 { '-' } else { '+' }, p[0], p[1], q[0], q[1]]);
        assert(is_digit(p[0]) && is_digit(p[1]) && is_digit(q[0]) && is_digit(q[1]));
    }
    impl Kept for Trigger {
        open spec fn fit(&self) -> bool { match self { Trigger::Duration(d) => d.fit(), Trigger::DateTime(t) => t.fit() } }
        open spec fn params(&self) -> Seq<(String, String)> { match self { Trigger::Duration(_) => kind("DURATION"@), Trigger::DateTime(_) => kind("DATE-TIME"@) } }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) {
            reveal_strlit("VALUE="); reveal_strlit("DURATION"); reveal_strlit("DATE-TIME"); reveal_strlit("VALUE=DURATION"); reveal_strlit("VALUE=DATE-TIME");
            assert("VALUE="@ + "DURATION"@ =~= "VALUE=DURATION"@);
            assert("VALUE="@ + "DATE-TIME"@ =~= "VALUE=DATE-TIME"@);
            match x { Trigger::Duration(d) => { lemma_span(d); lemma_kind("DURATION"@); }, Trigger::DateTime(t) => { lemma_dt(t); lemma_kind("DATE-TIME"@); } }
        }
    }
    pub proof fn lemma_trigger(x: Trigger)
        requires x.fit()
        ensures !(no_span_text(x.ser()) && dt_err(x.ser())), forall|v: Trigger| #[trigger] trigger_ok(x.ser(), v) ==> v == x
    {
        broadcast use {crate::chrono::ax_span, crate::xstd::lemma_prefix_char};
        match x {
            Trigger::Duration(d) => {
                lemma_span(d);
                assert forall|v: Trigger| #[trigger] trigger_ok(x.ser(), v) implies v == x by { match v { Trigger::Duration(e) => { assert(e.ns() == d.ns()); assert(crate::chrono::span_of(e.ns()) == e); }, Trigger::DateTime(_) => {} } }
            },
            Trigger::DateTime(t) => {
                lemma_dt(t);
                reveal(span_at); reveal(no_span);
                let s = x.ser();
                assert(span(s) is None);
                assert forall|v: Trigger| #[trigger] trigger_ok(x.ser(), v) implies v == x by { }
            },
        }
    }

    // ---- lists ----
    pub open spec fn no_comma(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != ',' }
    pub open spec fn all_no_comma(ts: Seq<Seq<char>>) -> bool { forall|k: int| 0 <= k < ts.len() ==> no_comma(#[trigger] ts[k]) }
    pub open spec fn cjoin(ts: Seq<Seq<char>>) -> Seq<char> decreases ts.len() {
        if ts.len() == 0 { Seq::empty() } else if ts.len() == 1 { ts[0] } else { cjoin(ts.drop_last()) + comma() + ts.last() }
    }
    pub proof fn lemma_no_comma(s: Seq<char>)
        requires has(s, comma()) == false
        ensures no_comma(s)
    {
        broadcast use crate::xstd::lemma_prefix_char;
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != ',' by { if s[k] == ',' { assert(s.skip(k)[0] == ','); assert(comma().is_prefix_of(s.skip(k))); } }
    }
    pub proof fn lemma_comma_last(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
        requires a + comma() + b == c + comma() + d, no_comma(b), no_comma(d)
        ensures a == c, b == d
    {
        let j = a + comma() + b;
        assert(j[a.len() as int] == ',');
        assert(j[c.len() as int] == ',');
        assert(j.len() == a.len() + 1 + b.len() == c.len() + 1 + d.len());
        if a.len() > c.len() { assert(d[a.len() - c.len() - 1] == j[a.len() as int]); assert(false); }
        if a.len() < c.len() { assert(b[c.len() - a.len() - 1] == j[c.len() as int]); assert(false); }
        assert(a =~= c) by { assert forall|k: int| 0 <= k < a.len() implies a[k] == c[k] by { assert(j[k] == a[k]); assert(j[k] == c[k]); } }
        assert(b =~= d) by { assert forall|k: int| 0 <= k < b.len() implies b[k] == d[k] by { assert(j[a.len() + 1 + k] == b[k]); assert(j[c.len() + 1 + k] == d[k]); } }
    }
    /// a list is read as the items it was written for
    pub proof fn lemma_pieces(ts: Seq<Seq<char>>, ps: Seq<&str>)
        requires ts.len() > 0, all_no_comma(ts), pieces(cjoin(ts), ps)
        ensures ps.len() == ts.len(), forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ps[k])@ == ts[k]
        decreases ts.len()
    {
        let n = ps.len() - 1;
        assert(has(ps[n]@, comma()) == false);
        lemma_no_comma(ps[n]@);
        assert(no_comma(ts[ts.len() - 1]));
        if ts.len() == 1 {
            assert(no_comma(ts[0]));
            if ps.len() > 1 { let c = joined(ps.drop_last(), comma()); assert(joined(ps, comma())[c.len() as int] == ','); assert(false); }
        } else {
            if ps.len() == 1 { let c = cjoin(ts.drop_last()); assert(cjoin(ts)[c.len() as int] == ','); assert(false); }
            lemma_comma_last(joined(ps.drop_last(), comma()), ps.last()@, cjoin(ts.drop_last()), ts.last());
            let (t, p) = (ts.drop_last(), ps.drop_last());
            assert forall|k: int| 0 <= k < t.len() implies no_comma(#[trigger] t[k]) by { assert(no_comma(ts[k])); }
            assert forall|k: int| 0 <= k < p.len() implies has((#[trigger] p[k])@, comma()) == false by { assert(has(ps[k]@, comma()) == false); }
            lemma_pieces(t, p);
            assert forall|k: int| 0 <= k < ts.len() implies (#[trigger] ps[k])@ == ts[k] by { if k < t.len() { assert(p[k]@ == t[k]); } }
        }
    }
    pub proof fn lemma_all_pieces(ts: Seq<Seq<char>>)
        requires ts.len() > 0, all_no_comma(ts)
        ensures forall|ps: Seq<&str>| pieces(cjoin(ts), ps) ==> #[trigger] joined(ps, comma()) == cjoin(ts) && ps.len() == ts.len() && forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ps[k])@ == ts[k]
    {
        assert forall|ps: Seq<&str>| pieces(cjoin(ts), ps) implies #[trigger] joined(ps, comma()) == cjoin(ts) && ps.len() == ts.len() && forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ps[k])@ == ts[k] by { lemma_pieces(ts, ps); }
    }
    pub open spec fn sers<T: Serialize>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|x: T| x.ser()) }
    pub open spec fn disps<T: Display>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|x: T| x.disp()) }
    pub proof fn lemma_list_text<T: Serialize>(v: Seq<T>)
        ensures list_text(v) == cjoin(sers(v))
        decreases v.len()
    {
        if v.len() == 1 {
            assert(v.drop_last().len() == 0);
            assert(commas(v.drop_last()) =~= Seq::<char>::empty());
            assert(list_text(v) =~= v[0].ser());
        } else if v.len() > 1 {
            let d = v.drop_last();
            lemma_list_text(d);
            assert(sers(v).drop_last() =~= sers(d));
            assert(commas(d) == commas(d.drop_last()) + d.last().ser() + seq![',']);
            assert(commas(d) =~= list_text(d) + comma());
        }
    }
    pub proof fn lemma_items_text<T: Display>(v: Seq<T>)
        ensures items(v) == cjoin(disps(v))
        decreases v.len()
    { if v.len() > 1 { lemma_items_text(v.drop_last()); assert(disps(v).drop_last() =~= disps(v.drop_last())); } }
    pub proof fn lemma_cjoin_safe(ts: Seq<Seq<char>>)
        requires forall|k: int| 0 <= k < ts.len() ==> no_breaks(#[trigger] ts[k]) && ts[k].len() > 0
        ensures no_breaks(cjoin(ts)), ts.len() > 0 ==> cjoin(ts).len() > 0
        decreases ts.len()
    {
        if ts.len() == 1 { assert(no_breaks(ts[0])); }
        if ts.len() > 1 {
            let d = ts.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies no_breaks(#[trigger] d[k]) && d[k].len() > 0 by { assert(no_breaks(ts[k])); }
            lemma_cjoin_safe(d);
            assert(no_breaks(ts[ts.len() - 1]));
            let s = cjoin(ts);
            assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' by {
                if k < cjoin(d).len() { assert(s[k] == cjoin(d)[k]); } else if k > cjoin(d).len() { assert(s[k] == ts.last()[k - cjoin(d).len() - 1]); }
            }
        }
    }
    // texts
    pub proof fn lemma_texts(xs: Seq<Text>, cl: ContentLine, es: Seq<(String, String)>)
        requires all_fit(xs), xs.len() > 0, says(cl, list_text(xs), es), forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).params@ == es
        ensures forall|v: Vec<Text>| #[trigger] texts_ok(cl, v@) ==> all_same(xs, v@)
    {
        let ts = sers(xs);
        lemma_list_text(xs);
        assert forall|k: int| 0 <= k < ts.len() implies no_comma(#[trigger] ts[k]) && ts[k] == xs[k].text@ by { assert(xs[k].fit()); lemma_esc_plain(xs[k].text@); }
        lemma_all_pieces(ts);
        assert forall|v: Vec<Text>| #[trigger] texts_ok(cl, v@) implies all_same(xs, v@) by {
            let ps = choose|ps: Seq<&str>| #![trigger joined(ps, comma())] pieces(cl.value@, ps) && v@.len() == ps.len()
                && forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).text@ == ps[k]@ && v@[k].params == cl.params;
            assert(joined(ps, comma()) == cjoin(ts));
            assert forall|k: int| 0 <= k < xs.len() implies (#[trigger] xs[k]).same(&v@[k]) by { assert(xs[k].fit()); lemma_params_kept(xs[k].params); assert(ps[k]@ == ts[k]); assert(v@[k].text@ == ps[k]@); }
        }
    }
    // dates
    pub proof fn lemma_dates(xs: Seq<Date>, s: Seq<char>)
        requires all_fit(xs), xs.len() > 0, s == cjoin(disps(xs))
        ensures !dates_err(s), forall|v: Seq<Date>| #[trigger] dates_ok(s, v) ==> v == xs, no_breaks(s), s.len() > 0
    {
        let ts = disps(xs);
        assert forall|k: int| 0 <= k < ts.len() implies no_comma(#[trigger] ts[k]) && no_breaks(ts[k]) && ts[k].len() > 0 by {
            assert(xs[k].fit()); lemma_dodt(xs[k]);
            let t = ts[k];
            assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != ',' by { assert(is_digit(t[j]) || t[j] == 'T' || t[j] == 'Z'); }
        }
        lemma_cjoin_safe(ts);
        lemma_all_pieces(ts);
        if dates_err(s) {
            let (ps, k) = choose|ps: Seq<&str>, k: int| #![trigger joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && dodt_err(ps[k]@);
            assert(joined(ps, comma()) == cjoin(ts));
            assert(ps[k]@ == ts[k]); assert(xs[k].fit()); lemma_dodt(xs[k]);
        }
        assert forall|v: Seq<Date>| #[trigger] dates_ok(s, v) implies v == xs by {
            let ps = choose|ps: Seq<&str>| #![trigger joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> dodt_ok(ps[k]@, #[trigger] v[k]);
            assert(joined(ps, comma()) == cjoin(ts));
            assert forall|k: int| 0 <= k < xs.len() implies v[k] == #[trigger] xs[k] by { assert(ps[k]@ == ts[k]); assert(xs[k].fit()); lemma_dodt(xs[k]); assert(dodt_ok(ps[k]@, v[k])); }
            assert(v =~= xs);
        }
    }
    // periods
    impl Kept for Period {
        open spec fn fit(&self) -> bool { match self { Period::StartEnd(p) => p.start.fit() && p.end.fit(), Period::StartDur(p) => p.start.fit() && p.duration.fit() && p.duration.ns() >= 0 } }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { lemma_period(x); }
    }
    pub proof fn lemma_cut(a: Seq<char>, b: Seq<char>)
        requires forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] != '/'
        ensures cut(a + seq!['/'] + b, a, b), has(a + seq!['/'] + b, seq!['/']), forall|c: Seq<char>, d: Seq<char>| #[trigger] cut(a + seq!['/'] + b, c, d) ==> c == a && d == b
    {
        broadcast use crate::xstd::lemma_prefix_char;
        let s = a + seq!['/'] + b;
        if has(a, seq!['/']) { let k = choose|k: int| 0 <= k <= a.len() && seq!['/'].is_prefix_of(#[trigger] a.skip(k)); assert(a.skip(k)[0] == a[k]); }
        assert(s.skip(a.len() as int)[0] == '/');
        assert(seq!['/'].is_prefix_of(s.skip(a.len() as int)));
        assert forall|c: Seq<char>, d: Seq<char>| #[trigger] cut(s, c, d) implies c == a && d == b by {
            assert(s[c.len() as int] == '/');
            if c.len() < a.len() { assert(s[c.len() as int] == a[c.len() as int]); }
            if c.len() > a.len() { assert(s[a.len() as int] == '/'); assert(c[a.len() as int] == '/'); assert(c.skip(a.len() as int)[0] == '/'); assert(seq!['/'].is_prefix_of(c.skip(a.len() as int))); }
            assert(c =~= a) by { assert forall|k: int| 0 <= k < a.len() implies c[k] == a[k] by { assert(s[k] == a[k]); assert(s[k] == c[k]); } }
            assert(d =~= b) by { assert forall|k: int| 0 <= k < b.len() implies d[k] == b[k] by { assert(s[a.len() + 1 + k] == b[k]); assert(s[c.len() + 1 + k] == d[k]); } }
        }
    }
    #[verifier::rlimit(40)]
    pub proof fn lemma_period(x: Period)
        requires x.fit()
        ensures x.disp().len() > 0, no_breaks(x.disp()), no_comma(x.disp()), !per_err(x.disp()), forall|v: Period| #[trigger] per_ok(x.disp(), v) ==> v == x
    {
        broadcast use {crate::chrono::ax_span, crate::xstd::lemma_prefix_char};
        let s = x.disp();
        let start = match x { Period::StartEnd(p) => p.start, Period::StartDur(p) => p.start };
        let a = start.shown();
        let b = match x { Period::StartEnd(p) => p.end.shown(), Period::StartDur(p) => p.duration.disp() };
        assert(s == a + seq!['/'] + b);
        lemma_dt(start);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] != '/' && a[k] != ',' by { assert(is_digit(a[k]) || a[k] == 'T' || a[k] == 'Z'); }
        lemma_cut(a, b);
        match x {
            Period::StartEnd(p) => {
                lemma_dt(p.end);
                assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] != '/' && b[k] != ',' by { assert(is_digit(b[k]) || b[k] == 'T' || b[k] == 'Z'); }
                assert(!span_first(b));
            },
            Period::StartDur(p) => { lemma_span(p.duration); assert(span_first(b)); },
        }
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' && s[k] != ',' by {
            if k < a.len() { assert(s[k] == a[k]); } else if k > a.len() { assert(s[k] == b[k - a.len() - 1]); }
        }
        assert forall|v: Period| #[trigger] per_ok(s, v) implies v == x by {
            match (x, v) {
                (Period::StartDur(p), Period::StartDur(q)) => { assert(dt_ok(a, q.start)); assert(q.duration.ns() == p.duration.ns()); assert(crate::chrono::span_of(q.duration.ns()) == q.duration); assert(crate::chrono::span_of(p.duration.ns()) == p.duration); },
                (Period::StartEnd(p), Period::StartEnd(q)) => { assert(dt_ok(a, q.start)); assert(dt_ok(b, q.end)); },
                _ => {},
            }
        }
    }
    pub proof fn lemma_periods(xs: Seq<Period>, s: Seq<char>)
        requires all_fit(xs), xs.len() > 0, s == cjoin(disps(xs))
        ensures !periods_err(s), forall|v: Seq<Period>| #[trigger] periods_ok(s, v) ==> v == xs, no_breaks(s), s.len() > 0
    {
        let ts = disps(xs);
        assert forall|k: int| 0 <= k < ts.len() implies no_comma(#[trigger] ts[k]) && no_breaks(ts[k]) && ts[k].len() > 0 by { assert(xs[k].fit()); lemma_period(xs[k]); }
        lemma_cjoin_safe(ts);
        lemma_all_pieces(ts);
        if periods_err(s) {
            let (ps, k) = choose|ps: Seq<&str>, k: int| #![trigger joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && per_err(ps[k]@);
            assert(joined(ps, comma()) == cjoin(ts));
            assert(ps[k]@ == ts[k]); assert(xs[k].fit()); lemma_period(xs[k]);
        }
        assert forall|v: Seq<Period>| #[trigger] periods_ok(s, v) implies v == xs by {
            let ps = choose|ps: Seq<&str>| #![trigger joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> per_ok(ps[k]@, #[trigger] v[k]);
            assert(joined(ps, comma()) == cjoin(ts));
            assert forall|k: int| 0 <= k < xs.len() implies v[k] == #[trigger] xs[k] by { assert(ps[k]@ == ts[k]); assert(xs[k].fit()); lemma_period(xs[k]); assert(per_ok(ps[k]@, v[k])); }
            assert(v =~= xs);
        }
    }
    impl Kept for RDate {
        open spec fn fit(&self) -> bool { match self { RDate::Date(v) => all_fit(v@) && v@.len() > 0, RDate::Period(v) => all_fit(v@) && v@.len() > 0 } }
        open spec fn params(&self) -> Seq<(String, String)> { match self {
            RDate::Date(v) => if exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]) is DateTime { Seq::empty() } else { kind("DATE"@) },
            RDate::Period(_) => kind("PERIOD"@),
        } }
        open spec fn same(&self, o: &Self) -> bool { match (self, o) { (RDate::Date(a), RDate::Date(b)) => b@ == a@, (RDate::Period(a), RDate::Period(b)) => b@ == a@, _ => false } }
        proof fn written(x: Self) {
            reveal_strlit("VALUE="); reveal_strlit("DATE"); reveal_strlit("PERIOD"); reveal_strlit("VALUE=DATE"); reveal_strlit("VALUE=PERIOD");
            assert("VALUE="@ + "DATE"@ =~= "VALUE=DATE"@);
            assert("VALUE="@ + "PERIOD"@ =~= "VALUE=PERIOD"@);
            lemma_kind("DATE"@); lemma_kind("PERIOD"@);
            match x { RDate::Date(v) => { lemma_items_text(v@); lemma_dates(v@, x.ser()); }, RDate::Period(v) => { lemma_items_text(v@); lemma_periods(v@, x.ser()); } }
        }
    }
    pub proof fn lemma_rdate(x: RDate, cl: ContentLine)
        requires x.fit(), says(cl, x.ser(), x.params())
        ensures !rdate_err(cl), forall|v: RDate| #[trigger] rdate_ok(cl, v) ==> x.same(&v)
    {
        reveal_strlit("DATE"); reveal_strlit("PERIOD");
        lemma_kind("DATE"@); lemma_kind("PERIOD"@);
        assert(kept(Seq::<(String, String)>::empty()) =~= Map::empty());
        assert("DATE"@.len() != "PERIOD"@.len());
        match x {
            RDate::Date(v) => { lemma_items_text(v@); lemma_dates(v@, x.ser()); assert(!says_period(cl)); },
            RDate::Period(v) => { lemma_items_text(v@); lemma_periods(v@, x.ser()); assert(says_period(cl)); },
        }
    }

    // ---- values with floating point numbers: that their texts are numbers is assumed ----
    impl Kept for Geo {
        open spec fn fit(&self) -> bool { self.disp().len() > 0 && no_breaks(self.disp()) && !geo_err(self.disp()) && forall|v: Geo| #[trigger] geo_ok(self.disp(), v) ==> v == *self }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { *o == *self }
        proof fn written(x: Self) { }
    }
    /// the text of this number is read as the number, up to a semicolon
    pub open spec fn code_fit(x: f32) -> bool {
        &&& crate::leaf::code_text(x).len() > 0 && no_breaks(crate::leaf::code_text(x))
        &&& forall|t: Seq<char>| !crate::nom::number::no_float(#[trigger] (crate::leaf::code_text(x) + seq![';'] + t))
        &&& forall|t: Seq<char>, m: Seq<char>, v: f32| #[trigger] crate::nom::number::float_at(crate::leaf::code_text(x) + seq![';'] + t, m, v) ==> v == x && m == seq![';'] + t
    }
    pub open spec fn clear(s: Seq<char>) -> bool { s.len() == 0 || plain_text(s) }
    impl Kept for RequestStatus {
        open spec fn fit(&self) -> bool { code_fit(self.statcode) && clear(self.statdesc@) && (self.extdata matches Some(e) ==> clear(e@)) }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { o.statcode == self.statcode && o.statdesc@ == self.statdesc@ && match (self.extdata, o.extdata) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } }
        proof fn written(x: Self) { lemma_rstatus(x); }
    }
    pub proof fn lemma_clear(s: Seq<char>)
        requires clear(s)
        ensures esc(s) == s, forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != ';' && s[k] != '\r' && s[k] != '\n'
    { lemma_esc_plain(s); }
    pub proof fn lemma_rstatus(x: RequestStatus)
        requires x.fit()
        ensures x.ser().len() > 0, no_breaks(x.ser()), !rstatus_err(x.ser()), forall|v: RequestStatus| #[trigger] rstatus_ok(x.ser(), v) ==> x.same(&v)
    {
        broadcast use crate::xstd::lemma_prefix_char;
        let c = crate::leaf::code_text(x.statcode);
        let d = x.statdesc@;
        lemma_clear(d);
        let e = match x.extdata { Some(e) => seq![';'] + esc(e@), None => Seq::empty() };
        if let Some(e) = x.extdata { lemma_clear(e@); }
        let t = d + e;
        let s = x.ser();
        assert(s =~= c + seq![';'] + t);
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' by {
            if k < c.len() { assert(s[k] == c[k]); } else if k > c.len() { let j = k - c.len() - 1; assert(s[k] == t[j]); if j < d.len() { assert(t[j] == d[j]); } else { assert(t[j] == e[j - d.len()]); if j > d.len() { assert(e[j - d.len()] == x.extdata.unwrap()@[j - d.len() - 1]); } } }
        }
        assert((seq![';'] + t).skip(1) =~= t);
        assert forall|j: int| 0 <= j < d.len() implies cls(Cls::Item, #[trigger] t[j]) by { assert(t[j] == d[j]); }
        if e.len() > 0 { assert(t[d.len() as int] == e[0]); assert(!cls(Cls::Item, t[d.len() as int])); }
        lemma_run_is(Cls::Item, t, d.len() as int);
        assert(front(Cls::Item, t) =~= d);
        assert(back(Cls::Item, t) =~= e);
        if let Some(f) = x.extdata { assert(e.skip(1) =~= f@); }
        assert forall|v: RequestStatus| #[trigger] rstatus_ok(s, v) implies x.same(&v) by { }
    }
    // one text, and texts without parameters
    pub proof fn lemma_one(x: Text)
        ensures list_text(seq![x]) == x.ser()
    { lemma_list_text(seq![x]); assert(sers(seq![x]) =~= seq![x.ser()]); }
    pub proof fn lemma_no_params(xs: Seq<Text>)
        requires crate::lines::plain(xs), all_fit(xs)
        ensures forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).params@ == Seq::<(String, String)>::empty()
    { assert forall|k: int| 0 <= k < xs.len() implies (#[trigger] xs[k]).params@ == Seq::<(String, String)>::empty() by { assert(xs[k].attr_spec() is None); assert(xs[k].params@ =~= Seq::<(String, String)>::empty()); } }
    pub proof fn lemma_status(x: Status)
        ensures forall|v: Status| #[trigger] <Status as FromStr>::parse_ok(x.ser(), v) ==> v == x, !<Status as FromStr>::parse_err(x.ser())
    {
    }
    pub proof fn lemma_timetransparency(x: TimeTransparency)
        ensures forall|v: TimeTransparency| #[trigger] <TimeTransparency as FromStr>::parse_ok(x.ser(), v) ==> v == x, !<TimeTransparency as FromStr>::parse_err(x.ser())
    {
    }

    // ---- rules ----
    impl Kept for Recur {
        open spec fn fit(&self) -> bool { crate::ruletrip::rule_fit(*self) }
        open spec fn params(&self) -> Seq<(String, String)> { Seq::empty() }
        open spec fn same(&self, o: &Self) -> bool { crate::ruletrip::rule_same(*self, *o) }
        proof fn written(x: Self) { crate::ruletrip::lemma_rule(x); }
    }
    pub proof fn lemma_rule(x: Recur)
        requires x.fit()
        ensures !crate::rules::rule_err(x.ser()), forall|v: Recur| #[trigger] crate::rules::rule_ok(x.ser(), v) ==> x.same(&v)
    { crate::ruletrip::lemma_rule(x); }
}
