#!/usr/bin/env python3
# generates contracts/p_nest.rs (specs) and contracts/p_pcomp.rs (contracts on crate::parser::components)
import os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts')
LEAF = [('vfreebusy','VFreebusy'),('vtodo','VTodo'),('vjournal','VJournal'),('standard','Standard'),('daylight','Daylight'),('audio','Audio'),('display','Display'),('email','Email')]
o = []
w = o.append
w('''// generated by tools/gennest.py: what it is for a text to hold a component
pub mod nest {
    use vstd::prelude::*;
    use crate::grammar::*;
    use crate::glue::*;
    use crate::nom::multi::{chain, stuck};
    use crate::nom::Parser;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::r_valarm::first_action;
    pub open spec fn opens(n: Seq<char>) -> Seq<char> { "BEGIN:"@ + n + "\\r\\n"@ }
    pub open spec fn closes(n: Seq<char>) -> Seq<char> { "END:"@ + n + "\\r\\n"@ }
    /// from i to rest: BEGIN:n, the lines ls, END:n
    #[verifier::opaque]
    pub open spec fn block(n: Seq<char>, i: Seq<char>, rest: Seq<char>, ls: Seq<ContentLine>) -> bool {
        after(i, opens(n)) matches Some(t) && lines_of(ls) == g_lines(t).0 && after(g_lines(t).1, closes(n)) == Some(rest)
    }
    /// such a block is there
    #[verifier::opaque]
    pub open spec fn blocked(n: Seq<char>, i: Seq<char>, ls: Seq<ContentLine>) -> bool {
        after(i, opens(n)) matches Some(t) && lines_of(ls) == g_lines(t).0 && after(g_lines(t).1, closes(n)) is Some
    }
    /// i does not start with such a block
    #[verifier::opaque]
    pub open spec fn no_block(n: Seq<char>, i: Seq<char>) -> bool {
        match after(i, opens(n)) { Some(t) => after(g_lines(t).1, closes(n)) is None, None => true }
    }
    /// a kind of component
    pub trait Piece: Sized {
        /// v is written from i to rest
        spec fn at(i: Seq<char>, rest: Seq<char>, v: Self) -> bool;
        /// no component of the kind, or an invalid one, is written at i
        spec fn none(i: Seq<char>) -> bool;
    }
    /// one after the other
    pub open spec fn repeated<O: Piece>(i: Seq<char>, rest: Seq<char>, vs: Seq<O>) -> bool decreases vs.len() {
        if vs.len() == 0 { i == rest } else { exists|m: Seq<char>| #[trigger] O::at(i, m, vs[0]) && repeated(m, rest, vs.skip(1)) }
    }
    pub open spec fn reads<'a, O: Piece, P: Parser<'a, O>>(p: P) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: O| #[trigger] p.ok(i, t, o) ==> O::at(i@, t@, o) && t@.len() < i@.len()
        &&& forall|i: &'a str| #[trigger] p.fails(i) ==> O::none(i@)
    }
    pub broadcast proof fn lemma_repeated<'a, O: Piece, P: Parser<'a, O>>(p: P, i: &'a str, t: &'a str, outs: Seq<O>)
        requires #[trigger] chain(p, i, t, outs), reads(p)
        ensures repeated(i@, t@, outs), t@.len() <= i@.len()
        decreases outs.len()
    {
        if outs.len() > 0 {
            let m = choose|m: &'a str| #[trigger] p.ok(i, m, outs[0]) && m@ != i@ && chain(p, m, t, outs.skip(1));
            lemma_repeated(p, m, t, outs.skip(1));
        }
    }
    pub broadcast proof fn lemma_not_stuck<'a, O: Piece, P: Parser<'a, O>>(p: P, i: &'a str)
        requires reads(p)
        ensures !#[trigger] stuck(p, i)
    {
        if stuck(p, i) {
            let (m, rest, outs, o) = choose|m: &'a str, rest: &'a str, outs: Seq<O>, o: O| #[trigger] chain(p, i, m, outs) && #[trigger] p.ok(m, rest, o) && m@ == rest@;
        }
    }
    pub broadcast proof fn lemma_many<'a, O: Piece, P: Parser<'a, O>>(p: crate::nom::multi::Many0<P>, i: &'a str, t: &'a str, o: Vec<O>)
        requires #[trigger] Parser::<'a, Vec<O>>::ok(&p, i, t, o), reads::<O, P>(p.p)
        ensures repeated(i@, t@, o@), t@.len() <= i@.len(), O::none(t@)
    { lemma_repeated(p.p, i, t, o@); }
    pub broadcast proof fn lemma_many_fails<'a, O: Piece, P: Parser<'a, O>>(p: crate::nom::multi::Many0<P>, i: &'a str)
        requires reads::<O, P>(p.p)
        ensures !#[trigger] Parser::<'a, Vec<O>>::fails(&p, i)
    { lemma_not_stuck(p.p, i); }

''')
for fn, T in LEAF:
    N = fn.upper()
    w(f'''    impl Piece for {T} {{
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: {T}) -> bool {{ exists|ls: Seq<ContentLine>| #[trigger] {T}::read(ls, ls.len(), v) && block("{N}"@, i, rest, ls) }}
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool {{ no_block("{N}"@, i) || exists|ls: Seq<ContentLine>| #[trigger] {T}::unreadable(ls) && blocked("{N}"@, i, ls) }}
    }}
''')
w('''    pub open spec fn alarm_lines(ls: Seq<ContentLine>, v: VAlarm) -> bool { exists|k: int| #![trigger ls[k]] first_action(ls, k) && VAlarm::read(ls, ls[k].value@, v) }
    pub open spec fn no_alarm_lines(ls: Seq<ContentLine>) -> bool { crate::r_valarm::no_action(ls) || exists|k: int| #![trigger ls[k]] first_action(ls, k) && VAlarm::unreadable(ls, ls[k].value@) }
    impl Piece for VAlarm {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VAlarm) -> bool { exists|ls: Seq<ContentLine>| #[trigger] alarm_lines(ls, v) && block("VALARM"@, i, rest, ls) }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { no_block("VALARM"@, i) || exists|ls: Seq<ContentLine>| #[trigger] no_alarm_lines(ls) && blocked("VALARM"@, i, ls) }
    }
    /// from i to rest: BEGIN:n, the lines ls, the components vs and no further one, then the closing text
    #[verifier::opaque]
    pub open spec fn nested<O: Piece>(open: Seq<char>, close: Seq<char>, i: Seq<char>, rest: Seq<char>, ls: Seq<ContentLine>, vs: Seq<O>) -> bool {
        after(i, open) matches Some(t) && lines_of(ls) == g_lines(t).0 && exists|u: Seq<char>| #[trigger] repeated(g_lines(t).1, u, vs) && O::none(u) && after(u, close) == Some(rest)
    }
    /// such a text is there
    #[verifier::opaque]
    pub open spec fn nests<O: Piece>(open: Seq<char>, close: Seq<char>, i: Seq<char>, ls: Seq<ContentLine>) -> bool {
        after(i, open) matches Some(t) && lines_of(ls) == g_lines(t).0 && exists|u: Seq<char>, vs: Seq<O>| #[trigger] repeated(g_lines(t).1, u, vs) && O::none(u) && after(u, close) is Some
    }
    /// what follows the components is not the closing text
    #[verifier::opaque]
    pub open spec fn no_nested<O: Piece>(open: Seq<char>, close: Seq<char>, i: Seq<char>) -> bool {
        match after(i, open) {
            None => true,
            Some(t) => exists|u: Seq<char>, vs: Seq<O>| #[trigger] repeated(g_lines(t).1, u, vs) && O::none(u) && after(u, close) is None,
        }
    }
use crate::nom::sequence::{Preceded, Terminated};
    use crate::nom::bytes::complete::Tag;
    pub open spec fn reads_lines<'a, L: Parser<'a, Vec<ContentLine>>>(l: L) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: Vec<ContentLine>| #[trigger] l.ok(i, t, o) ==> lines_of(o@) == g_lines(i@).0 && t@ == g_lines(i@).1
        &&& forall|i: &'a str| !#[trigger] l.fails(i)
    }
    pub open spec fn reads_all<'a, O: Piece, M: Parser<'a, Vec<O>>>(m: M) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: Vec<O>| #[trigger] m.ok(i, t, o) ==> repeated(i@, t@, o@) && O::none(t@) && t@.len() <= i@.len()
        &&& forall|i: &'a str| !#[trigger] m.fails(i)
    }
    pub type Delimited<'t, 'u, 'a, L, M> = Preceded<Tag<'t>, Terminated<(L, M), Tag<'u>, &'a str>, &'a str>;
    pub broadcast proof fn lemma_nested<'t, 'u, 'a, O: Piece, L: Parser<'a, Vec<ContentLine>>, M: Parser<'a, Vec<O>>>(d: Delimited<'t, 'u, 'a, L, M>, i: &'a str, t: &'a str, o: (Vec<ContentLine>, Vec<O>))
        requires #[trigger] Parser::<'a, (Vec<ContentLine>, Vec<O>)>::ok(&d, i, t, o), reads_lines::<L>(d.b.a.0), reads_all::<O, M>(d.b.a.1), d.a.t@.len() > 0
        ensures nested(d.a.t@, d.b.b.t@, i@, t@, o.0@, o.1@), t@.len() < i@.len(), nests::<O>(d.a.t@, d.b.b.t@, i@, o.0@)
    {
        broadcast use crate::grammar::lemma_g_lines_len;
        reveal(nested); reveal(nests);
        let (m, oa) = choose|m: &'a str, oa: &'a str| #[trigger] d.a.ok(i, m, oa) && d.b.ok(m, t, o);
        let (u, ob) = choose|u: &'a str, ob: &'a str| #[trigger] d.b.a.ok(m, u, o) && #[trigger] d.b.b.ok(u, t, ob);
        let n = choose|n: &'a str| #[trigger] d.b.a.0.ok(m, n, o.0) && d.b.a.1.ok(n, u, o.1);
        assert(after(i@, d.a.t@) == Some(m@));
        assert(after(u@, d.b.b.t@) == Some(t@));
        assert(repeated(g_lines(m@).1, u@, o.1@));
    }
    pub broadcast proof fn lemma_no_nested<'t, 'u, 'a, O: Piece, L: Parser<'a, Vec<ContentLine>>, M: Parser<'a, Vec<O>>>(d: Delimited<'t, 'u, 'a, L, M>, i: &'a str)
        requires #[trigger] Parser::<'a, (Vec<ContentLine>, Vec<O>)>::fails(&d, i), reads_lines::<L>(d.b.a.0), reads_all::<O, M>(d.b.a.1)
        ensures no_nested::<O>(d.a.t@, d.b.b.t@, i@)
    {
        reveal(no_nested);
        if !d.a.fails(i) {
            let (m, oa) = choose|m: &'a str, oa: &'a str| #[trigger] d.a.ok(i, m, oa) && Parser::<'a, (Vec<ContentLine>, Vec<O>)>::fails(&d.b, m);
            assert(after(i@, d.a.t@) == Some(m@));
            if Parser::<'a, (Vec<ContentLine>, Vec<O>)>::fails(&d.b.a, m) {
                let (n, o) = choose|n: &'a str, o: Vec<ContentLine>| #[trigger] d.b.a.0.ok(m, n, o) && d.b.a.1.fails(n);
                assert(false);
            }
            let (u, o) = choose|u: &'a str, o: (Vec<ContentLine>, Vec<O>)| #[trigger] d.b.a.ok(m, u, o) && d.b.b.fails(u);
            let n = choose|n: &'a str| #[trigger] d.b.a.0.ok(m, n, o.0) && d.b.a.1.ok(n, u, o.1);
            assert(repeated(g_lines(m@).1, u@, o.1@));
            assert(after(u@, d.b.b.t@) is None);
            assert(after(i@, d.a.t@) matches Some(x) && x == m@);
            assert(O::none(u@));
            assert(no_nested::<O>(d.a.t@, d.b.b.t@, i@));
        } else { assert(after(i@, d.a.t@) is None); }
    }
    pub broadcast group group_nest { lemma_many, lemma_many_fails, lemma_nested, lemma_no_nested }
    /// an event with its properties from ls and these alarms
    pub open spec fn event_of(ls: Seq<ContentLine>, vs: Seq<VAlarm>, v: VEvent) -> bool {
        exists|e: VEvent| #[trigger] VEvent::read(ls, ls.len(), e) && v == (VEvent { alarms: v.alarms, ..e }) && v.alarms@ == vs
    }
    impl Piece for VEvent {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VEvent) -> bool {
            exists|ls: Seq<ContentLine>, vs: Seq<VAlarm>| #[trigger] event_of(ls, vs, v) && nested(opens("VEVENT"@), closes("VEVENT"@), i, rest, ls, vs)
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool {
            no_nested::<VAlarm>(opens("VEVENT"@), closes("VEVENT"@), i)
                || exists|ls: Seq<ContentLine>| #[trigger] VEvent::unreadable(ls) && nests::<VAlarm>(opens("VEVENT"@), closes("VEVENT"@), i, ls)
        }
    }
    use crate::components::vtimezone::Component as Part;
    impl Piece for Part {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Part) -> bool { match v { Part::Standard(s) => Standard::at(i, rest, s), Part::Daylight(d) => Daylight::at(i, rest, d) } }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { Standard::none(i) && Daylight::none(i) }
    }
''')
def proj(name, E, V, T):
    w(f'''    /// the {name} among them, in order
    pub open spec fn {name}(vs: Seq<{E}>) -> Seq<{T}> decreases vs.len() {{
        if vs.len() == 0 {{ Seq::empty() }} else {{ match vs.last() {{ {E}::{V}(x) => {name}(vs.drop_last()).push(x), _ => {name}(vs.drop_last()) }} }}
    }}
    pub broadcast proof fn lemma_{name}(vs: Seq<{E}>, n: int)
        requires 0 <= n < vs.len()
        ensures #[trigger] {name}(vs.take(n + 1)) == (match vs[n] {{ {E}::{V}(x) => {name}(vs.take(n)).push(x), _ => {name}(vs.take(n)) }})
    {{ assert(vs.take(n + 1).drop_last() =~= vs.take(n)); }}
''')
proj('standards','Part','Standard','Standard'); proj('daylights','Part','Daylight','Daylight')
KINDS=[('alarms','Alarm','VAlarm'),('events','Event','VEvent'),('freebusy','Freebusy','VFreebusy'),('journals','Journal','VJournal'),('todo','Todo','VTodo'),('timezones','Timezone','VTimezone')]
w('    use crate::components::Component;')
for n,V,T in KINDS: proj('its_'+n,'Component',V,T)
w('''    pub broadcast group group_kinds { lemma_standards, lemma_daylights, ''' + ', '.join('lemma_its_'+n for n,_,_ in KINDS) + ''' }
    pub open spec fn timezone_of(ls: Seq<ContentLine>, vs: Seq<Part>, v: VTimezone) -> bool {
        exists|e: VTimezone| #[trigger] VTimezone::read(ls, ls.len(), e) && v == (VTimezone { standard: v.standard, daylight: v.daylight, ..e }) && v.standard@ == standards(vs) && v.daylight@ == daylights(vs)
    }
    impl Piece for VTimezone {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VTimezone) -> bool {
            exists|ls: Seq<ContentLine>, vs: Seq<Part>| #[trigger] timezone_of(ls, vs, v) && nested(opens("VTIMEZONE"@), closes("VTIMEZONE"@), i, rest, ls, vs)
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool {
            no_nested::<Part>(opens("VTIMEZONE"@), closes("VTIMEZONE"@), i)
                || exists|ls: Seq<ContentLine>| #[trigger] VTimezone::unreadable(ls) && nests::<Part>(opens("VTIMEZONE"@), closes("VTIMEZONE"@), i, ls)
        }
    }
    impl Piece for Component {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: Component) -> bool {
            match v {''' + ' '.join(f'Component::{V}(x) => {T}::at(i, rest, x),' for _,V,T in KINDS) + ''' }
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool { ''' + ' && '.join(f'{T}::none(i)' for _,V,T in KINDS) + ''' }
    }
    /// a calendar with its properties from ls and these components, each under its kind
    pub open spec fn calendar_of(ls: Seq<ContentLine>, vs: Seq<Component>, v: VCalendar) -> bool {
        exists|e: VCalendar| #[trigger] VCalendar::read(ls, ls.len(), e)
            && v == (VCalendar { ''' + ', '.join(f'{n}: v.{n}' for n,_,_ in KINDS) + ''', ..e })
            && ''' + ' && '.join(f'v.{n}@ == its_{n}(vs)' for n,_,_ in KINDS) + '''
    }
    pub open spec fn calendar_end() -> Seq<char> { "END:VCALENDAR"@ }
    impl Piece for VCalendar {
        #[verifier::opaque]
        open spec fn at(i: Seq<char>, rest: Seq<char>, v: VCalendar) -> bool {
            exists|ls: Seq<ContentLine>, vs: Seq<Component>| #[trigger] calendar_of(ls, vs, v) && nested(opens("VCALENDAR"@), calendar_end(), i, rest, ls, vs)
        }
        #[verifier::opaque]
        open spec fn none(i: Seq<char>) -> bool {
            no_nested::<Component>(opens("VCALENDAR"@), calendar_end(), i)
                || exists|ls: Seq<ContentLine>| #[trigger] VCalendar::unreadable(ls) && nests::<Component>(opens("VCALENDAR"@), calendar_end(), i, ls)
        }
    }
}''')
open(os.path.join(here,'p_nest.rs'),'w').write('\n'.join(o)+'\n')

o=[]; w=o.append
w('''    // generated by tools/gennest.py: the component parsers
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::grammar::*;
    use crate::glue::*;
    use crate::nest::*;
    use crate::components::*;
    use crate::components::Component;
    use crate::components::vtimezone::{Component as Part, Standard, Daylight, VTimezone};
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::ContentLine;
    //@ uses crate::parser::components
    broadcast use {crate::xstd::ax_str_ext, crate::grammar::lemma_g_lines_len, crate::nest::group_kinds};
    //@ props C04,C11''')
def ens(T):
    return f'''    //@ ret r
        ensures match r {{ Ok((t, v)) => {T}::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && {T}::none(input@) }}'''
for fn, T in LEAF+[('valarm','VAlarm')]:
    N=fn.upper()
    ok, bad = (f'{T}::read(values@, values@.len(), v)', f'{T}::unreadable(values@)') if T!='VAlarm' else ('alarm_lines(values@, v)','no_alarm_lines(values@)')
    w(f'''    //@ fn crate::parser::components::{fn}
{ens(T)}
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<{T}, crate::Error>)
            ensures match q {{ Ok(v) => {ok}, Err(_) => {bad} }}
    //@ head
        proof {{
            crate::xstd::ax_uppercase_ascii("{fn}"@);
            reveal_strlit("{fn}"); reveal_strlit("{N}");
            assert(crate::xstd::uppercase("{fn}"@) =~= "{N}"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<{T} as Piece>::at); reveal(<{T} as Piece>::none);
        }}
    //@ end''')

def nest(fn, T, P, body_ok, closure, extra_head='', loop='', close='closes("%s"@)'):
    N=fn.upper()
    cl = close % N if '%s' in close else close
    w(f'''    //@ fn crate::parser::components::{fn}
{ens(T)}
{closure}
    //@ head
        broadcast use crate::nest::group_nest;
        proof {{
            reveal_strlit("{N}"); reveal_strlit("BEGIN:"); reveal_strlit("END:"); reveal_strlit("\\r\\n");
            assert("BEGIN:{N}\\r\\n"@ =~= opens("{N}"@));{extra_head}
            reveal(nested); reveal(nests); reveal(no_nested); reveal(<{T} as Piece>::at); reveal(<{T} as Piece>::none);
        }}
{loop}    //@ end''')
nest('vevent','VEvent','VAlarm','', '''    //@ closure 0 |p: (Vec<ContentLine>, Vec<VAlarm>)| -> (q: core::result::Result<VEvent, crate::Error>)
            ensures match q { Ok(v) => event_of(p.0@, p.1@, v), Err(_) => VEvent::unreadable(p.0@) }''', '\n            assert("END:VEVENT\\r\\n"@ =~= closes("VEVENT"@));')
nest('vtimezone','VTimezone','Part','', '''    //@ closure 0 |p: (Vec<ContentLine>, Vec<Part>)| -> (q: core::result::Result<VTimezone, crate::Error>)
            ensures match q { Ok(v) => timezone_of(p.0@, p.1@, v), Err(_) => VTimezone::unreadable(p.0@) }
    //@ loop 0 it
            invariant it.seq() == p.1@, VTimezone::read(p.0@, p.0@.len(), e), vtimezone == (VTimezone { standard: vtimezone.standard, daylight: vtimezone.daylight, ..e }), vtimezone.standard@ == standards(p.1@.take(it.index@)), vtimezone.daylight@ == daylights(p.1@.take(it.index@))
    //@ before for component in components
            let ghost e = vtimezone;
            proof { assert(p.1@.take(0) =~= Seq::empty()); }
    //@ before Ok::<_, crate::Error>(vtimezone)
            proof { assert(p.1@.take(p.1@.len() as int) =~= p.1@); }''', '\n            reveal(<Part as Piece>::at); reveal(<Part as Piece>::none);\n            assert("END:VTIMEZONE\\r\\n"@ =~= closes("VTIMEZONE"@));')
w(f'''    //@ fn crate::parser::components::component
{ens('Component')}
    //@ head
        proof {{ reveal(<Component as Piece>::at); reveal(<Component as Piece>::none); }}
    //@ end
    //@ fn crate::parser::components::components
    //@ ret r
        ensures r is Ok, repeated(input@, r->Ok_0.0@, r->Ok_0.1@), Component::none(r->Ok_0.0@), r->Ok_0.0@.len() <= input@.len()
    //@ head
        broadcast use crate::nest::group_nest;
    //@ end''')
nest('vcalendar','VCalendar','Component','', '''    //@ closure 0 |p: (Vec<ContentLine>, Vec<Component>)| -> (q: core::result::Result<VCalendar, crate::nom_language::error::VerboseError<&str>>)
            ensures match q { Ok(v) => calendar_of(p.0@, p.1@, v), Err(_) => VCalendar::unreadable(p.0@) }
    //@ closure 1 |e: crate::Error| -> (q: crate::nom_language::error::VerboseError<&str>)
    //@ loop 0 it
            invariant it.seq() == p.1@, VCalendar::read(p.0@, p.0@.len(), e), vcalendar == (VCalendar { '''+', '.join(f'{n}: vcalendar.{n}' for n,_,_ in KINDS)+''', ..e }), '''+', '.join(f'vcalendar.{n}@ == its_{n}(p.1@.take(it.index@))' for n,_,_ in KINDS)+'''
    //@ before for component in components
            let ghost e = vcalendar;
            proof { assert(p.1@.take(0) =~= Seq::empty()); }
    //@ before Ok::<_, nom_language::error::VerboseError<&str>>(vcalendar)
            proof { assert(p.1@.take(p.1@.len() as int) =~= p.1@); }''', '')
open(os.path.join(here,'p_pcomp.rs'),'w').write('\n'.join(o)+'\n')

# the public ways in
o=[]; w=o.append
w('''// generated by tools/gennest.py: reading a component from a text
pub mod entry {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::xstd::str::FromStr;
    use crate::nest::*;
    use crate::unfold::unfolded;
    use crate::components::*;
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    broadcast use crate::xstd::ax_str_ext;
    /// the text, unfolded, begins with v
    pub open spec fn text_of<T: Piece>(s: Seq<char>, v: T) -> bool { exists|rest: Seq<char>| #[trigger] T::at(unfolded(s), rest, v) }
    /// wherever its lines were folded, a text gives the same values
    pub proof fn lemma_same_values<T: Piece>(f: Seq<char>, s: Seq<char>, v: T)
        requires crate::unfold::folds(f, s, true, true), crate::unfold::one_line_each(s)
        ensures text_of(f, v) == text_of(s, v), T::none(unfolded(f)) == T::none(unfolded(s)), unfolded(f) == s
    { crate::unfold::lemma_same_unfolded(f, s); crate::unfold::lemma_unfolded(f, s); }
    //@ rename replace vx_replace
    //@ props C02,C04,C11''')
MODS={'VCalendar':'vcalendar','VEvent':'vevent','VFreebusy':'vfreebusy','VJournal':'vjournal','VTodo':'vtodo','VAlarm':'valarm','Audio':'valarm','Display':'valarm','Email':'valarm','VTimezone':'vtimezone','Standard':'vtimezone','Daylight':'vtimezone'}
for T, m in MODS.items():
    w(f'''    //@ impl crate::components::{m} | FromStr for {T}
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool {{ text_of(s, v) }}
    open spec fn parse_err(s: Seq<char>) -> bool {{ {T}::none(unfolded(s)) }}
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, {T})| -> (q: {T})
            ensures q == p.1
    //@ head
        proof {{ reveal_strlit("\\r\\n "); reveal_strlit("\\r\\n\\t"); reveal_strlit(""); assert("\\r\\n "@ =~= crate::unfold::fold_with(' ')); assert("\\r\\n\\t"@ =~= crate::unfold::fold_with('\\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }}
    //@ end
    //@ endimpl''')
    for S, tx in (('String','value@'),('&str','value@')):
        w(f'''    impl TryFromSpecImpl<{S}> for {T} {{
        open spec fn obeys_try_from_spec() -> bool {{ false }}
        open spec fn try_from_spec(v: {S}) -> core::result::Result<Self, crate::Error> {{ arbitrary() }}
    }}
    //@ impl crate::components::{m} | TryFrom<{S}> for {T}
    //@ method try_from
    //@ ret r
        ensures match r {{ Ok(v) => text_of(value@, v), Err(_) => {T}::none(unfolded(value@)) }}
    //@ end
    //@ endimpl''')
w('    //@ norename replace\n}')
open(os.path.join(here,'p_entry.rs'),'w').write('\n'.join(o)+'\n')
