// Values of properties, read from their text.
pub mod datatype {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::xstd::trimmed;
    use crate::spans::*;
    use crate::grammar::*;
    use crate::chrono::{fits, NaiveDate, NaiveDateTime, parsed_date, parsed_dt, y4, whole, date_text, dt_text};
    //@ uses crate::parser::datatype
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::lemma_suffix_char, crate::xstd::lemma_prefix_char, crate::chrono::ax_local_at, crate::chrono::ax_local};
    //@ rename trim_end_matches vx_trim_end_matches
    //@ rename ends_with vx_ends_with
    //@ rename starts_with vx_starts_with
    /// a calendar day
    pub open spec fn date_ok(s: Seq<char>, v: NaiveDate) -> bool { parsed_date(s) == Some(v) }
    pub open spec fn date_err(s: Seq<char>) -> bool { parsed_date(s) is None }
    pub open spec fn zulu(s: Seq<char>) -> bool { s.len() > 0 && s.last() == 'Z' }
    /// a floating date-time, or an instant when the text ends in Z
    pub open spec fn dt_ok(s: Seq<char>, v: crate::DateTime) -> bool {
        parsed_dt(trimmed(s, 'Z')) == Some(match v { crate::DateTime::Naive(n) => n, crate::DateTime::Local(l) => l.utc() }) && (v is Local <==> zulu(s))
    }
    pub open spec fn dt_err(s: Seq<char>) -> bool { parsed_dt(trimmed(s, 'Z')) is None }
    pub open spec fn dodt_ok(s: Seq<char>, v: crate::Date) -> bool {
        match v { crate::Date::Date(d) => date_ok(s, d), crate::Date::DateTime(t) => date_err(s) && dt_ok(s, t) }
    }
    pub open spec fn dodt_err(s: Seq<char>) -> bool { date_err(s) && dt_err(s) }
    //@ props C06,C11
    //@ fn crate::parser::datatype::date
    //@ ret r
        ensures match r { Ok((rest, v)) => rest@.len() == 0 && date_ok(input@, v), Err(e) => e is Error && date_err(input@) }
    //@ closure 0 |e: crate::chrono::ParseError| -> (q: crate::nom::NErr)
        ensures q is Error
    //@ end
    //@ fn crate::parser::datatype::date_time
    //@ ret r
        ensures match r { Ok((rest, v)) => rest@.len() == 0 && dt_ok(input@, v), Err(e) => e is Error && dt_err(input@) }
    //@ closure 0 |e: crate::chrono::ParseError| -> (q: crate::nom::NErr)
        ensures q is Error
    //@ end
    //@ fn crate::parser::datatype::date_or_dt
    //@ ret r
        ensures match r { Ok((rest, v)) => rest@.len() == 0 && dodt_ok(input@, v), Err(e) => e is Error && dodt_err(input@) }
    //@ noreveal
    //@ end
    //@ fn crate::parser::datatype::cal_address
    //@ ret r
        ensures r is Ok, r->Ok_0@ == input@
    //@ end
    //@ fn crate::parser::datatype::text
    //@ ret r
        ensures r is Ok, r->Ok_0.text == input.value, r->Ok_0.params == input.params
    //@ end
    //@ fn crate::parser::datatype::uri
    //@ ret r
        ensures r is Ok, r->Ok_0@ == input@
    //@ end
    pub open spec fn given(neg: Option<&str>, w: Option<i64>, d: Option<i64>, t: Option<(i64, i64, i64)>) -> int {
        let (h, i, s) = match t { Some(x) => x, None => (0i64, 0i64, 0i64) };
        let n = sum_ns(match w { Some(x) => x as int, None => 0 }, match d { Some(x) => x as int, None => 0 }, h as int, i as int, s as int);
        if neg is Some { -n } else { n }
    }
    pub open spec fn small(w: Option<i64>, d: Option<i64>, t: Option<(i64, i64, i64)>) -> bool {
        (w matches Some(x) ==> x >= 0) && (d matches Some(x) ==> x >= 0) && (t matches Some((h, i, s)) ==> h >= 0 && i >= 0 && s >= 0)
    }
    // durations
    //@ props C06,C07,C11
    //@ fn crate::parser::datatype::duration::week
    //@ ret r
        ensures match r { Ok((t, v)) => part(input@, 'W') == Some((v as int, t@)), Err(e) => e is Error && part(input@, 'W') is None }
    //@ head
        broadcast use lemma_part;
        proof { reveal_strlit("W"); assert("W"@ =~= seq!['W']); lemma_read_part(input@, 'W'); }
    //@ end
    //@ fn crate::parser::datatype::duration::day
    //@ ret r
        ensures match r { Ok((t, v)) => part(input@, 'D') == Some((v as int, t@)), Err(e) => e is Error && part(input@, 'D') is None }
    //@ head
        broadcast use lemma_part;
        proof { reveal_strlit("D"); assert("D"@ =~= seq!['D']); lemma_read_part(input@, 'D'); }
    //@ end
    //@ fn crate::parser::datatype::duration::hour
    //@ ret r
        ensures match r { Ok((t, v)) => part(input@, 'H') == Some((v as int, t@)), Err(e) => e is Error && part(input@, 'H') is None }
    //@ head
        broadcast use lemma_part;
        proof { reveal_strlit("H"); assert("H"@ =~= seq!['H']); lemma_read_part(input@, 'H'); }
    //@ end
    //@ fn crate::parser::datatype::duration::minute
    //@ ret r
        ensures match r { Ok((t, v)) => part(input@, 'M') == Some((v as int, t@)), Err(e) => e is Error && part(input@, 'M') is None }
    //@ head
        broadcast use lemma_part;
        proof { reveal_strlit("M"); assert("M"@ =~= seq!['M']); lemma_read_part(input@, 'M'); }
    //@ end
    //@ fn crate::parser::datatype::duration::seconde
    //@ ret r
        ensures match r { Ok((t, v)) => part(input@, 'S') == Some((v as int, t@)), Err(e) => e is Error && part(input@, 'S') is None }
    //@ head
        broadcast use lemma_part;
        proof { reveal_strlit("S"); assert("S"@ =~= seq!['S']); lemma_read_part(input@, 'S'); }
    //@ end
    //@ fn crate::parser::datatype::duration::time
    //@ ret r
        ensures match r { Ok((t, v)) => clock(input@) == Some((v.0 as int, v.1 as int, v.2 as int, t@)), Err(e) => e is Error && clock(input@) is None }
    //@ head
        proof { reveal_strlit("T"); assert("T"@ =~= seq!['T']); }
    //@ end
    //@ fn crate::parser::datatype::duration::sum
    //@ ret r
        ensures match r {
            Some(x) => x.ns() == sum_ns(w as int, d as int, h as int, i as int, s as int),
            None => w >= 0 && d >= 0 && h >= 0 && i >= 0 && s >= 0 ==> !fits(sum_ns(w as int, d as int, h as int, i as int, s as int)),
        }
    //@ end
    //@ fn crate::parser::datatype::duration
    //@ ret r
        ensures match r { Ok((t, v)) => span_at(input@, t@, v.ns()), Err(e) => e is Error && no_span(input@) }
    //@ closure 0 |p: (Option<&str>, (Option<i64>, Option<i64>, Option<(i64, i64, i64)>))| -> (q: core::result::Result<crate::chrono::Duration, crate::Error>)
            ensures match q { Ok(v) => v.ns() == given(p.0, p.1.0, p.1.1, p.1.2), Err(_) => small(p.1.0, p.1.1, p.1.2) ==> !fits(given(p.0, p.1.0, p.1.1, p.1.2)) }
    //@ head
        broadcast use {lemma_part, crate::chrono::ax_span_of, crate::chrono::ax_span};
        proof { reveal_strlit("-"); reveal_strlit("P"); assert("-"@ =~= seq!['-']); assert("P"@ =~= seq!['P']); reveal(span_at); reveal(no_span); }
    //@ end
    //@ props C06,C11
    // periods
    /// s is a, a slash, b: the first slash
    pub open spec fn cut(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { s == a + seq!['/'] + b && crate::xstd::has(a, seq!['/']) == false }
    pub open spec fn span_first(b: Seq<char>) -> bool { seq!['P'].is_prefix_of(b) }
    pub open spec fn per_ok(s: Seq<char>, v: crate::Period) -> bool {
        exists|a: Seq<char>, b: Seq<char>| #[trigger] cut(s, a, b) && match v {
            crate::Period::StartDur(p) => span_first(b) && dt_ok(a, p.start) && span_text(b, p.duration.ns()),
            crate::Period::StartEnd(p) => !span_first(b) && dt_ok(a, p.start) && dt_ok(b, p.end),
        }
    }
    pub open spec fn per_err(s: Seq<char>) -> bool {
        crate::xstd::has(s, seq!['/']) == false
            || exists|a: Seq<char>, b: Seq<char>| #[trigger] cut(s, a, b) && (dt_err(a) || if span_first(b) { no_span_text(b) } else { dt_err(b) })
    }
    //@ rename split_once vx_split_once
    //@ fn crate::parser::datatype::period
    //@ ret r
        ensures match r { Ok(v) => per_ok(input@, v), Err(_) => per_err(input@) }
    //@ head
        proof { assert(crate::xstd::strings::VxPat::pat(&'/') == seq!['/']); assert(crate::xstd::strings::VxPat::pat(&'P') == seq!['P']); }
    //@ before let start
        proof { assert(cut(input@, start@, end@)); }
    //@ end
    //@ norename split_once
    pub open spec fn periods_ok(s: Seq<char>, v: Seq<crate::Period>) -> bool {
        exists|ps: Seq<&str>| #![trigger crate::xstd::joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> per_ok(ps[k]@, #[trigger] v[k])
    }
    pub open spec fn periods_err(s: Seq<char>) -> bool {
        exists|ps: Seq<&str>, k: int| #![trigger crate::xstd::joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && per_err(ps[k]@)
    }
    // comma lists
    pub open spec fn comma() -> Seq<char> { seq![','] }
    /// ps are the items of s
    pub open spec fn pieces(s: Seq<char>, ps: Seq<&str>) -> bool {
        ps.len() > 0 && crate::xstd::joined(ps, comma()) == s && forall|k: int| 0 <= k < ps.len() ==> crate::xstd::has((#[trigger] ps[k])@, comma()) == false
    }
    pub open spec fn texts_ok(cl: crate::ContentLine, v: Seq<crate::Text>) -> bool {
        exists|ps: Seq<&str>| #![trigger crate::xstd::joined(ps, comma())] pieces(cl.value@, ps) && v.len() == ps.len()
            && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).text@ == ps[k]@ && v[k].params == cl.params
    }
    pub open spec fn dates_ok(s: Seq<char>, v: Seq<crate::Date>) -> bool {
        exists|ps: Seq<&str>| #![trigger crate::xstd::joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> dodt_ok(ps[k]@, #[trigger] v[k])
    }
    pub open spec fn dates_err(s: Seq<char>) -> bool {
        exists|ps: Seq<&str>, k: int| #![trigger crate::xstd::joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && dodt_err(ps[k]@)
    }
    pub open spec fn trigger_ok(s: Seq<char>, v: crate::Trigger) -> bool {
        match v { crate::Trigger::Duration(d) => span_text(s, d.ns()), crate::Trigger::DateTime(t) => no_span_text(s) && dt_ok(s, t) }
    }
    /// periods exactly when the line says VALUE=PERIOD
    pub open spec fn says_period(cl: crate::ContentLine) -> bool { cl.params.texts().contains_key("VALUE"@) && cl.params.texts()["VALUE"@] == "PERIOD"@ }
    pub open spec fn rdate_ok(cl: crate::ContentLine, v: crate::RDate) -> bool {
        match v { crate::RDate::Period(p) => says_period(cl) && periods_ok(cl.value@, p@), crate::RDate::Date(d) => !says_period(cl) && dates_ok(cl.value@, d@) }
    }
    pub open spec fn rdate_err(cl: crate::ContentLine) -> bool { if says_period(cl) { periods_err(cl.value@) } else { dates_err(cl.value@) } }
    /// a number, text up to the next semicolon, and what follows that
    pub open spec fn rstatus_ok(s: Seq<char>, v: crate::RequestStatus) -> bool {
        exists|m: Seq<char>| #[trigger] crate::nom::number::float_at(s, m, v.statcode) && (after_char(m, ';') matches Some(t)
            && v.statdesc@ == front(Cls::Item, t)
            && match v.extdata { Some(d) => after_char(back(Cls::Item, t), ';') == Some(d@), None => after_char(back(Cls::Item, t), ';') is None })
    }
    pub open spec fn rstatus_err(s: Seq<char>) -> bool {
        crate::nom::number::no_float(s) || exists|m: Seq<char>, v: f32| #[trigger] crate::nom::number::float_at(s, m, v) && after_char(m, ';') is None
    }
    /// two numbers with a semicolon between them
    pub open spec fn geo_ok(s: Seq<char>, v: crate::Geo) -> bool {
        exists|m: Seq<char>, t: Seq<char>, r: Seq<char>| #[trigger] crate::nom::number::float_at(s, m, v.lat) && after_char(m, ';') == Some(t) && #[trigger] crate::nom::number::float_at(t, r, v.lon)
    }
    pub open spec fn geo_err(s: Seq<char>) -> bool {
        crate::nom::number::no_float(s) || exists|m: Seq<char>, v: f32| #[trigger] crate::nom::number::float_at(s, m, v) && (after_char(m, ';') matches Some(t) ==> crate::nom::number::no_float(t))
    }
    // what this says of canonical text
    pub proof fn lemma_day(x: NaiveDate, v: crate::Date)
        requires y4(x), dodt_ok(date_text(x), v)
        ensures v == crate::Date::Date(x)
    { broadcast use {crate::chrono::group_parsed, crate::chrono::group_chrono}; }
    pub proof fn lemma_floating(x: NaiveDateTime, v: crate::Date)
        requires whole(x), dodt_ok(dt_text(x), v)
        ensures v == crate::Date::DateTime(crate::DateTime::Naive(x))
    {
        broadcast use {crate::chrono::group_parsed, crate::chrono::group_chrono};
        assert(dt_text(x)[8] == 'T'); assert(dt_text(x).contains('T'));
    }
    pub proof fn lemma_instant(x: NaiveDateTime, v: crate::Date)
        requires whole(x), dodt_ok(dt_text(x).push('Z'), v)
        ensures v matches crate::Date::DateTime(crate::DateTime::Local(l)) && l.utc() == x
    {
        broadcast use {crate::chrono::group_parsed, crate::chrono::group_chrono};
        let s = dt_text(x).push('Z');
        assert(s[8] == 'T'); assert(s.contains('T'));
        assert(s.drop_last() =~= dt_text(x));
        assert(trimmed(s, 'Z') == trimmed(dt_text(x), 'Z'));
        assert(parsed_dt(dt_text(x)) == Some(x));
    }
    /// and these are never errors
    pub proof fn lemma_read(x: NaiveDate, y: NaiveDateTime)
        requires y4(x), whole(y)
        ensures !dodt_err(date_text(x)), !dt_err(dt_text(y)), !dt_err(dt_text(y).push('Z'))
    {
        broadcast use {crate::chrono::group_parsed, crate::chrono::group_chrono};
        assert(dt_text(y).push('Z').drop_last() =~= dt_text(y));
        assert(parsed_dt(dt_text(y)) == Some(y));
    }
    //@ props
    //@ norename trim_end_matches
    //@ norename ends_with
    //@ norename starts_with
}
