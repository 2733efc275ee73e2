// generated by tools/gennest.py: what it is for a text to hold a component
pub mod nest {
    use vstd::prelude::*;
    use crate::grammar::*;
    use crate::glue::*;
    use crate::nom::multi::{chain, stuck};
    use crate::nom::Parser;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::r_valarm::first_action;
    pub open spec fn opens(n: Seq<char>) -> Seq<char> { "BEGIN:"@ + n + "\r\n"@ }
    pub open spec fn closes(n: Seq<char>) -> Seq<char> { "END:"@ + n + "\r\n"@ }
    /// from i to rest: BEGIN:n, the lines ls, END:n
    #[verifier::opaque]
    pub open spec fn block(n: Seq<char>, i: Seq<char>, rest: Seq<char>, ls: Seq<ContentLine>) -> bool {
        after(i, opens(n)) matches Some(t) && lines_of(ls) == g_lines(t).0 && after(g_lines(t).1, closes(n)) == Some(rest)
    }
    /// such a block is there
    #[verifier::opaque]
    pub open spec fn blocked(n: Seq<char>, i: Seq<char>, ls: Seq<ContentLine>) -> bool {
        after(i, opens(n)) matches Some(t) && lines_of(ls) == g_lines(t).0 && after(g_lines(t).1, closes(n)) is Some
    }
    /// i does not start with such a block
    #[verifier::opaque]
    pub open spec fn no_block(n: Seq<char>, i: Seq<char>) -> bool {
        match after(i, opens(n)) { Some(t) => after(g_lines(t).1, closes(n)) is None, None => true }
    }
    /// a kind of component
    pub trait Piece: Sized {
        /// v is written from i to rest
        spec fn at(i: Seq<char>, rest: Seq<char>, v: Self) -> bool;
        /// no component of the kind, or an invalid one, is written at i
        spec fn none(i: Seq<char>) -> bool;
    }
    /// one after the other
    pub open spec fn repeated<O: Piece>(i: Seq<char>, rest: Seq<char>, vs: Seq<O>) -> bool decreases vs.len() {
        if vs.len() == 0 { i == rest } else { exists|m: Seq<char>| #[trigger] O::at(i, m, vs[0]) && repeated(m, rest, vs.skip(1)) }
    }
    pub open spec fn reads<'a, O: Piece, P: Parser<'a, O>>(p: P) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: O| #[trigger] p.ok(i, t, o) ==> O::at(i@, t@, o) && t@.len() < i@.len()
        &&& forall|i: &'a str| #[trigger] p.fails(i) ==> O::none(i@)
    }
    pub broadcast proof fn lemma_repeated<'a, O: Piece, P: Parser<'a, O>>(p: P, i: &'a str, t: &'a str, outs: Seq<O>)
        requires #[trigger] chain(p, i, t, outs), reads(p)
        ensures repeated(i@, t@, outs), t@.len() <= i@.len()
        decreases outs.len()
    {
        if outs.len() > 0 {
            let m = choose|m: &'a str| #[trigger] p.ok(i, m, outs[0]) && m@ != i@ && chain(p, m, t, outs.skip(1));
            lemma_repeated(p, m, t, outs.skip(1));
        }
    }
    pub broadcast proof fn lemma_not_stuck<'a, O: Piece, P: Parser<'a, O>>(p: P, i: &'a str)
        requires reads(p)
        ensures !#[trigger] stuck(p, i)
    {
        if stuck(p, i) {
            let (m, rest, outs, o) = choose|m: &'a str, rest: &'a str, outs: Seq<O>, o: O| #[trigger] chain(p, i, m, outs) && #[trigger] p.ok(m, rest, o) && m@ == rest@;
        }
    }
    pub broadcast proof fn lemma_many<'a, O: Piece, P: Parser<'a, O>>(p: crate::nom::multi::Many0<P>, i: &'a str, t: &'a str, o: Vec<O>)
        requires #[trigger] Parser::<'a, Vec<O>>::ok(&p, i, t, o), reads::<O, P>(p.p)
        ensures repeated(i@, t@, o@), t@.len() <= i@.len(), O::none(t@)
    { lemma_repeated(p.p, i, t, o@); }
    pub broadcast proof fn lemma_many_fails<'a, O: Piece, P: Parser<'a, O>>(p: crate::nom::multi::Many0<P>, i: &'a str)
        requires reads::<O, P>(p.p)
        ensures !#[trigger] Parser::<'a, Vec<O>>::fails(&p, i)
    { lemma_not_stuck(p.p, i); }


    impl Piece for VFreebusy {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VFreebusy) -> bool { exists|ls: Seq<ContentLine>| #[trigger] VFreebusy::read(ls, ls.len(), v) && block("VFREEBUSY"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("VFREEBUSY"@, i) || exists|ls: Seq<ContentLine>| #[trigger] VFreebusy::unreadable(ls) && blocked("VFREEBUSY"@, i, ls) }
    }

    impl Piece for VTodo {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VTodo) -> bool { exists|ls: Seq<ContentLine>| #[trigger] VTodo::read(ls, ls.len(), v) && block("VTODO"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("VTODO"@, i) || exists|ls: Seq<ContentLine>| #[trigger] VTodo::unreadable(ls) && blocked("VTODO"@, i, ls) }
    }

    impl Piece for VJournal {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VJournal) -> bool { exists|ls: Seq<ContentLine>| #[trigger] VJournal::read(ls, ls.len(), v) && block("VJOURNAL"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("VJOURNAL"@, i) || exists|ls: Seq<ContentLine>| #[trigger] VJournal::unreadable(ls) && blocked("VJOURNAL"@, i, ls) }
    }

    impl Piece for Standard {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Standard) -> bool { exists|ls: Seq<ContentLine>| #[trigger] Standard::read(ls, ls.len(), v) && block("STANDARD"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("STANDARD"@, i) || exists|ls: Seq<ContentLine>| #[trigger] Standard::unreadable(ls) && blocked("STANDARD"@, i, ls) }
    }

    impl Piece for Daylight {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Daylight) -> bool { exists|ls: Seq<ContentLine>| #[trigger] Daylight::read(ls, ls.len(), v) && block("DAYLIGHT"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("DAYLIGHT"@, i) || exists|ls: Seq<ContentLine>| #[trigger] Daylight::unreadable(ls) && blocked("DAYLIGHT"@, i, ls) }
    }

    impl Piece for Audio {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Audio) -> bool { exists|ls: Seq<ContentLine>| #[trigger] Audio::read(ls, ls.len(), v) && block("AUDIO"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("AUDIO"@, i) || exists|ls: Seq<ContentLine>| #[trigger] Audio::unreadable(ls) && blocked("AUDIO"@, i, ls) }
    }

    impl Piece for Display {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Display) -> bool { exists|ls: Seq<ContentLine>| #[trigger] Display::read(ls, ls.len(), v) && block("DISPLAY"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("DISPLAY"@, i) || exists|ls: Seq<ContentLine>| #[trigger] Display::unreadable(ls) && blocked("DISPLAY"@, i, ls) }
    }

    impl Piece for Email {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Email) -> bool { exists|ls: Seq<ContentLine>| #[trigger] Email::read(ls, ls.len(), v) && block("EMAIL"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("EMAIL"@, i) || exists|ls: Seq<ContentLine>| #[trigger] Email::unreadable(ls) && blocked("EMAIL"@, i, ls) }
    }

    pub open spec fn alarm_lines(ls: Seq<ContentLine>, v: VAlarm) -> bool { exists|k: int| #![trigger ls[k]] first_action(ls, k) && VAlarm::read(ls, ls[k].value@, v) }
    pub open spec fn no_alarm_lines(ls: Seq<ContentLine>) -> bool { crate::r_valarm::no_action(ls) || exists|k: int| #![trigger ls[k]] first_action(ls, k) && VAlarm::unreadable(ls, ls[k].value@) }
    impl Piece for VAlarm {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VAlarm) -> bool { exists|ls: Seq<ContentLine>| #[trigger] alarm_lines(ls, v) && block("VALARM"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("VALARM"@, i) || exists|ls: Seq<ContentLine>| #[trigger] no_alarm_lines(ls) && blocked("VALARM"@, i, ls) }
    }
    /// from i to rest: BEGIN:n, the lines ls, the components vs and no further one, then the closing text
    #[verifier::opaque]
    pub open spec fn nested<O: Piece>(open: Seq<char>, close: Seq<char>, i: Seq<char>, rest: Seq<char>, ls: Seq<ContentLine>, vs: Seq<O>) -> bool {
        after(i, open) matches Some(t) && lines_of(ls) == g_lines(t).0 && exists|u: Seq<char>| #[trigger] repeated(g_lines(t).1, u, vs) && O::none(u) && after(u, close) == Some(rest)
    }
    /// such a text is there
    #[verifier::opaque]
    pub open spec fn nests<O: Piece>(open: Seq<char>, close: Seq<char>, i: Seq<char>, ls: Seq<ContentLine>) -> bool {
        after(i, open) matches Some(t) && lines_of(ls) == g_lines(t).0 && exists|u: Seq<char>, vs: Seq<O>| #[trigger] repeated(g_lines(t).1, u, vs) && O::none(u) && after(u, close) is Some
    }
    /// what follows the components is not the closing text
    #[verifier::opaque]
    pub open spec fn no_nested<O: Piece>(open: Seq<char>, close: Seq<char>, i: Seq<char>) -> bool {
        match after(i, open) {
            None => true,
            Some(t) => exists|u: Seq<char>, vs: Seq<O>| #[trigger] repeated(g_lines(t).1, u, vs) && O::none(u) && after(u, close) is None,
        }
    }
use crate::nom::sequence::{Preceded, Terminated};
    use crate::nom::bytes::complete::Tag;
    pub open spec fn reads_lines<'a, L: Parser<'a, Vec<ContentLine>>>(l: L) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: Vec<ContentLine>| #[trigger] l.ok(i, t, o) ==> lines_of(o@) == g_lines(i@).0 && t@ == g_lines(i@).1
        &&& forall|i: &'a str| !#[trigger] l.fails(i)
    }
    pub open spec fn reads_all<'a, O: Piece, M: Parser<'a, Vec<O>>>(m: M) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: Vec<O>| #[trigger] m.ok(i, t, o) ==> repeated(i@, t@, o@) && O::none(t@) && t@.len() <= i@.len()
        &&& forall|i: &'a str| !#[trigger] m.fails(i)
    }
    pub type Delimited<'t, 'u, 'a, L, M> = Preceded<Tag<'t>, Terminated<(L, M), Tag<'u>, &'a str>, &'a str>;
    pub broadcast proof fn lemma_nested<'t, 'u, 'a, O: Piece, L: Parser<'a, Vec<ContentLine>>, M: Parser<'a, Vec<O>>>(d: Delimited<'t, 'u, 'a, L, M>, i: &'a str, t: &'a str, o: (Vec<ContentLine>, Vec<O>))
        requires #[trigger] Parser::<'a, (Vec<ContentLine>, Vec<O>)>::ok(&d, i, t, o), reads_lines::<L>(d.b.a.0), reads_all::<O, M>(d.b.a.1), d.a.t@.len() > 0
        ensures nested(d.a.t@, d.b.b.t@, i@, t@, o.0@, o.1@), t@.len() < i@.len(), nests::<O>(d.a.t@, d.b.b.t@, i@, o.0@)
    {
        broadcast use crate::grammar::lemma_g_lines_len;
        reveal(nested); reveal(nests);
        let (m, oa) = choose|m: &'a str, oa: &'a str| #[trigger] d.a.ok(i, m, oa) && d.b.ok(m, t, o);
        let (u, ob) = choose|u: &'a str, ob: &'a str| #[trigger] d.b.a.ok(m, u, o) && #[trigger] d.b.b.ok(u, t, ob);
        let n = choose|n: &'a str| #[trigger] d.b.a.0.ok(m, n, o.0) && d.b.a.1.ok(n, u, o.1);
        assert(after(i@, d.a.t@) == Some(m@));
        assert(after(u@, d.b.b.t@) == Some(t@));
        assert(repeated(g_lines(m@).1, u@, o.1@));
    }
    pub broadcast proof fn lemma_no_nested<'t, 'u, 'a, O: Piece, L: Parser<'a, Vec<ContentLine>>, M: Parser<'a, Vec<O>>>(d: Delimited<'t, 'u, 'a, L, M>, i: &'a str)
        requires #[trigger] Parser::<'a, (Vec<ContentLine>, Vec<O>)>::fails(&d, i), reads_lines::<L>(d.b.a.0), reads_all::<O, M>(d.b.a.1)
        ensures no_nested::<O>(d.a.t@, d.b.b.t@, i@)
    {
        reveal(no_nested);
        if !d.a.fails(i) {
            let (m, oa) = choose|m: &'a str, oa: &'a str| #[trigger] d.a.ok(i, m, oa) && Parser::<'a, (Vec<ContentLine>, Vec<O>)>::fails(&d.b, m);
            assert(after(i@, d.a.t@) == Some(m@));
            if Parser::<'a, (Vec<ContentLine>, Vec<O>)>::fails(&d.b.a, m) {
                let (n, o) = choose|n: &'a str, o: Vec<ContentLine>| #[trigger] d.b.a.0.ok(m, n, o) && d.b.a.1.fails(n);
                assert(false);
            }
            let (u, o) = choose|u: &'a str, o: (Vec<ContentLine>, Vec<O>)| #[trigger] d.b.a.ok(m, u, o) && d.b.b.fails(u);
            let n = choose|n: &'a str| #[trigger] d.b.a.0.ok(m, n, o.0) && d.b.a.1.ok(n, u, o.1);
            assert(repeated(g_lines(m@).1, u@, o.1@));
            assert(after(u@, d.b.b.t@) is None);
            assert(after(i@, d.a.t@) matches Some(x) && x == m@);
            assert(O::none(u@));
            assert(no_nested::<O>(d.a.t@, d.b.b.t@, i@));
        } else { assert(after(i@, d.a.t@) is None); }
    }
    pub broadcast group group_nest { lemma_many, lemma_many_fails, lemma_nested, lemma_no_nested }
    /// an event with its properties from ls and these alarms
    pub open spec fn event_of(ls: Seq<ContentLine>, vs: Seq<VAlarm>, v: VEvent) -> bool {
        exists|e: VEvent| #[trigger] VEvent::read(ls, ls.len(), e) && v == (VEvent { alarms: v.alarms, ..e }) && v.alarms@ == vs
    }
    impl Piece for VEvent {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VEvent) -> bool {
            exists|ls: Seq<ContentLine>, vs: Seq<VAlarm>| #[trigger] event_of(ls, vs, v) && nested(opens("VEVENT"@), closes("VEVENT"@), i, rest, ls, vs)
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool {
            no_nested::<VAlarm>(opens("VEVENT"@), closes("VEVENT"@), i)
                || exists|ls: Seq<ContentLine>| #[trigger] VEvent::unreadable(ls) && nests::<VAlarm>(opens("VEVENT"@), closes("VEVENT"@), i, ls)
        }
    }
    use crate::components::vtimezone::Component as Part;
    impl Piece for Part {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Part) -> bool { match v { Part::Standard(s) => Standard::at(i, rest, s), Part::Daylight(d) => Daylight::at(i, rest, d) } }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { Standard::none(i) && Daylight::none(i) }
    }

    /// the standards among them, in order
    pub open spec fn standards(vs: Seq<Part>) -> Seq<Standard> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Part::Standard(x) => standards(vs.drop_last()).push(x), _ => standards(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_standards(vs: Seq<Part>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] standards(vs.take(n + 1)) == (match vs[n] { Part::Standard(x) => standards(vs.take(n)).push(x), _ => standards(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    /// the daylights among them, in order
    pub open spec fn daylights(vs: Seq<Part>) -> Seq<Daylight> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Part::Daylight(x) => daylights(vs.drop_last()).push(x), _ => daylights(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_daylights(vs: Seq<Part>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] daylights(vs.take(n + 1)) == (match vs[n] { Part::Daylight(x) => daylights(vs.take(n)).push(x), _ => daylights(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    use crate::components::Component;
    /// the its_alarms among them, in order
    pub open spec fn its_alarms(vs: Seq<Component>) -> Seq<VAlarm> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Component::Alarm(x) => its_alarms(vs.drop_last()).push(x), _ => its_alarms(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_its_alarms(vs: Seq<Component>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] its_alarms(vs.take(n + 1)) == (match vs[n] { Component::Alarm(x) => its_alarms(vs.take(n)).push(x), _ => its_alarms(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    /// the its_events among them, in order
    pub open spec fn its_events(vs: Seq<Component>) -> Seq<VEvent> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Component::Event(x) => its_events(vs.drop_last()).push(x), _ => its_events(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_its_events(vs: Seq<Component>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] its_events(vs.take(n + 1)) == (match vs[n] { Component::Event(x) => its_events(vs.take(n)).push(x), _ => its_events(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    /// the its_freebusy among them, in order
    pub open spec fn its_freebusy(vs: Seq<Component>) -> Seq<VFreebusy> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Component::Freebusy(x) => its_freebusy(vs.drop_last()).push(x), _ => its_freebusy(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_its_freebusy(vs: Seq<Component>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] its_freebusy(vs.take(n + 1)) == (match vs[n] { Component::Freebusy(x) => its_freebusy(vs.take(n)).push(x), _ => its_freebusy(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    /// the its_journals among them, in order
    pub open spec fn its_journals(vs: Seq<Component>) -> Seq<VJournal> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Component::Journal(x) => its_journals(vs.drop_last()).push(x), _ => its_journals(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_its_journals(vs: Seq<Component>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] its_journals(vs.take(n + 1)) == (match vs[n] { Component::Journal(x) => its_journals(vs.take(n)).push(x), _ => its_journals(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    /// the its_todo among them, in order
    pub open spec fn its_todo(vs: Seq<Component>) -> Seq<VTodo> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Component::Todo(x) => its_todo(vs.drop_last()).push(x), _ => its_todo(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_its_todo(vs: Seq<Component>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] its_todo(vs.take(n + 1)) == (match vs[n] { Component::Todo(x) => its_todo(vs.take(n)).push(x), _ => its_todo(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    /// the its_timezones among them, in order
    pub open spec fn its_timezones(vs: Seq<Component>) -> Seq<VTimezone> decreases vs.len() {
        if vs.len() == 0 { Seq::empty() } else { match vs.last() { Component::Timezone(x) => its_timezones(vs.drop_last()).push(x), _ => its_timezones(vs.drop_last()) } }
    }
    pub broadcast proof fn lemma_its_timezones(vs: Seq<Component>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] its_timezones(vs.take(n + 1)) == (match vs[n] { Component::Timezone(x) => its_timezones(vs.take(n)).push(x), _ => its_timezones(vs.take(n)) })
    { assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }

    pub broadcast group group_kinds { lemma_standards, lemma_daylights, lemma_its_alarms, lemma_its_events, lemma_its_freebusy, lemma_its_journals, lemma_its_todo, lemma_its_timezones }
    pub open spec fn timezone_of(ls: Seq<ContentLine>, vs: Seq<Part>, v: VTimezone) -> bool {
        exists|e: VTimezone| #[trigger] VTimezone::read(ls, ls.len(), e) && v == (VTimezone { standard: v.standard, daylight: v.daylight, ..e }) && v.standard@ == standards(vs) && v.daylight@ == daylights(vs)
    }
    impl Piece for VTimezone {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VTimezone) -> bool {
            exists|ls: Seq<ContentLine>, vs: Seq<Part>| #[trigger] timezone_of(ls, vs, v) && nested(opens("VTIMEZONE"@), closes("VTIMEZONE"@), i, rest, ls, vs)
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool {
            no_nested::<Part>(opens("VTIMEZONE"@), closes("VTIMEZONE"@), i)
                || exists|ls: Seq<ContentLine>| #[trigger] VTimezone::unreadable(ls) && nests::<Part>(opens("VTIMEZONE"@), closes("VTIMEZONE"@), i, ls)
        }
    }
    impl Piece for Component {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Component) -> bool {
            match v {Component::Alarm(x) => VAlarm::at(i, rest, x), Component::Event(x) => VEvent::at(i, rest, x), Component::Freebusy(x) => VFreebusy::at(i, rest, x), Component::Journal(x) => VJournal::at(i, rest, x), Component::Todo(x) => VTodo::at(i, rest, x), Component::Timezone(x) => VTimezone::at(i, rest, x), }
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { VAlarm::none(i) && VEvent::none(i) && VFreebusy::none(i) && VJournal::none(i) && VTodo::none(i) && VTimezone::none(i) }
    }
    /// a calendar with its properties from ls and these components, each under its kind
    pub open spec fn calendar_of(ls: Seq<ContentLine>, vs: Seq<Component>, v: VCalendar) -> bool {
        exists|e: VCalendar| #[trigger] VCalendar::read(ls, ls.len(), e)
            && v == (VCalendar { alarms: v.alarms, events: v.events, freebusy: v.freebusy, journals: v.journals, todo: v.todo, timezones: v.timezones, ..e })
            && v.alarms@ == its_alarms(vs) && v.events@ == its_events(vs) && v.freebusy@ == its_freebusy(vs) && v.journals@ == its_journals(vs) && v.todo@ == its_todo(vs) && v.timezones@ == its_timezones(vs)
    }
    pub open spec fn calendar_end() -> Seq<char> { "END:VCALENDAR"@ }
    impl Piece for VCalendar {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VCalendar) -> bool {
            exists|ls: Seq<ContentLine>, vs: Seq<Component>| #[trigger] calendar_of(ls, vs, v) && nested(opens("VCALENDAR"@), calendar_end(), i, rest, ls, vs)
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool {
            no_nested::<Component>(opens("VCALENDAR"@), calendar_end(), i)
                || exists|ls: Seq<ContentLine>| #[trigger] VCalendar::unreadable(ls) && nests::<Component>(opens("VCALENDAR"@), calendar_end(), i, ls)
        }
    }
}
