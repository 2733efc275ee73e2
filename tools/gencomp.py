#!/usr/bin/env python3
"""Writes the contract files of the components (contracts/p_wcomp.rs, ...) from the table of fields below.
The table is the contract: it says which property each field is written under and read from."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = [('x_prop', 'map', 'ContentLine'), ('iana_prop', 'map', 'ContentLine')]
def f(s):
    out = []
    for w in s.split():
        n, k, *t = w.split(':')
        out.append((n, k, t[0] if t else ''))
    return out
# name: (module, fields: name:kind:type)
C = {
 'VCalendar': ('vcalendar', f('prodid:req:Text version:req:Text calscale:opt:Text method:opt:Text') + X + f('alarms:sub:VAlarm events:sub:VEvent freebusy:sub:VFreebusy journals:sub:VJournal todo:sub:VTodo timezones:sub:VTimezone')),
 'VEvent': ('vevent', f('dtstamp:req:DateTime uid:req:Text dtstart:req:Date class:opt:Class created:opt:DateTime description:opt:Text geo:opt:Geo last_modified:opt:DateTime location:opt:Text organizer:opt:Uri priority:opt:u8 sequence:opt:u32 status:opt:Status summary:opt:Text transp:opt:TimeTransparency url:opt:Uri recurid:opt:Date rrule:opt:Recur dtend:opt:Date duration:opt:TimeDelta attach:vec:Text attendee:vec:Uri categories:list:Text comment:vec:Text contact:vec:Text exdate:list:Date rstatus:vec:RequestStatus related_to:vec:Text resources:list:Text rdate:vec:RDate') + X + f('alarms:sub:VAlarm')),
 'VFreebusy': ('vfreebusy', f('dtstamp:req:DateTime uid:req:Text contact:opt:Text dtstart:opt:Date dtend:opt:Date organizer:opt:Uri url:opt:Uri attendee:vec:Uri comment:vec:Text freebusy:list:Period rstatus:vec:RequestStatus') + X),
 'VJournal': ('vjournal', f('dtstamp:req:DateTime uid:req:Text class:opt:Class created:opt:DateTime dtstart:req:Date last_modified:opt:DateTime organizer:opt:Uri recurid:opt:Date sequence:opt:u32 status:opt:Status summary:opt:Text url:opt:Uri rrule:opt:Recur attach:vec:Text attendee:vec:Uri categories:list:Text comment:vec:Text contact:vec:Text description:vec:Text exdate:list:Date related_to:vec:Text rdate:vec:RDate rstatus:vec:RequestStatus') + X),
 'VTodo': ('vtodo', f('dtstamp:req:DateTime uid:req:Text class:opt:Class completed:opt:DateTime created:opt:DateTime dtstart:opt:Date geo:opt:Geo last_modified:opt:DateTime location:opt:Text organizer:opt:Uri percent_complete:opt:u8 priority:opt:u8 recurid:opt:Date sequence:opt:u32 status:opt:Status summary:opt:Text url:opt:Uri rrule:opt:Recur due:opt:Date duration:opt:TimeDelta attach:vec:Text attendee:vec:Uri categories:list:Text comment:vec:Text contact:vec:Text exdate:list:Date rstatus:vec:RequestStatus related_to:vec:Text resources:list:Text rdate:vec:RDate') + X),
 'Audio': ('valarm', f('action:req:Text trigger:req:Trigger duration:opt:TimeDelta repeat:opt:u32 attach:vec:Text') + X),
 'Display': ('valarm', f('action:req:Text trigger:req:Trigger description:req:Text duration:opt:TimeDelta repeat:opt:u32') + X),
 'Email': ('valarm', f('action:req:Text trigger:req:Trigger description:req:Text summary:req:Text attendee:vec:Uri duration:opt:TimeDelta repeat:opt:u32 attach:vec:Text') + X),
 'VTimezone': ('vtimezone', f('tzid:req:Text last_modified:opt:DateTime tzurl:opt:Uri') + X + f('standard:sub:Standard daylight:sub:Daylight')),
 'Standard': ('vtimezone', f('dtstart:req:Date tzoffsetto:req:FixedOffset tzoffsetfrom:req:FixedOffset rrule:opt:Recur comment:vec:Text rdate:vec:RDate tzname:vec:Text') + X),
 'Daylight': ('vtimezone', f('dtstart:req:Date tzoffsetto:req:FixedOffset tzoffsetfrom:req:FixedOffset rrule:opt:Recur comment:vec:Text rdate:vec:RDate tzname:vec:Text') + X),
}
# source module path
SRC = {}
TY = {'Standard': 'Standard', 'Daylight': 'Daylight', 'TimeDelta': 'crate::chrono::TimeDelta', 'FixedOffset': 'crate::chrono::FixedOffset', 'u8': 'u8', 'u32': 'u32',
      'Text': 'crate::Text', 'Uri': 'crate::Uri', 'Date': 'crate::Date', 'DateTime': 'crate::DateTime'}
def ty(t): return TY.get(t, 'crate::' + t)
def prop(n): return n.upper().replace('_', '-')

def write():
    o = []
    p = o.append
    for name, (mod, fields) in C.items():
        p(f'pub mod w_{name.lower()} {{')
        p('    use vstd::prelude::*;')
        p('    use crate::xstd::prelude::*;')
        p('    use crate::xstd::{uppercase, ax_uppercase_ascii};')
        p('    use crate::ser::*;')
        p('    use crate::lines::*;')
        p('    use crate::components::*;')
        p('    use crate::components::valarm::{Audio, Display, Email, VAlarm};')
        p('    use crate::components::vtimezone::*;')
        p('    broadcast use crate::lines::group_lines;')
        p('    //@ rename iter vx_iter')
        p('    //@ rename push_str vx_push_str')
        up = name.upper()
        props = 'C10,C11,C18' if mod == 'valarm' else 'C10,C11'
        p(f'    //@ props {props}')
        p(f'    impl {name} {{')
        p(f'        proof fn lemma_name() ensures "{up}"@.len() == {len(up)} {{ reveal_strlit("{up}"); }}')
        p(f'        pub open spec fn l0(&self) -> Seq<Seq<char>> {{ app(Seq::empty(), seq!["BEGIN:"@ + "{up}"@]) }}')
        for i, (n, k, t) in enumerate(fields):
            P = prop(n)
            if k in ('req', 'opt'): e = f'app(self.l{i}(), field_lines("{P}"@, self.{n}))'
            elif k == 'list': e = f'list_from(self.l{i}(), "{P}"@, self.{n}@)'
            elif k in ('vec', 'sub'): e = f'each_from(self.l{i}(), "{P}"@, self.{n}@, self.{n}@.len())'
            else: e = f'map_from(self.l{i}(), self.{n}@, self.{n}@.len())'
            p(f'        pub open spec fn l{i+1}(&self) -> Seq<Seq<char>> {{ {e} }}')
        # the first line is BEGIN
        p(f'        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "{up}"@, self.lines().last() == "END:"@ + "{up}"@')
        p(f'        {{ reveal(app); let b = "BEGIN:"@ + "{up}"@; assert(heads(self.l0(), b));')
        for i, (n, k, t) in enumerate(fields):
            P = prop(n)
            if k in ('req', 'opt'): e = f'lemma_heads_app(self.l{i}(), field_lines("{P}"@, self.{n}), b);'
            elif k == 'list': e = f'lemma_heads_list(self.l{i}(), "{P}"@, self.{n}@, b);'
            elif k in ('vec', 'sub'): e = f'lemma_heads_each(self.l{i}(), "{P}"@, self.{n}@, self.{n}@.len(), b);'
            else: e = f'lemma_heads_map(self.l{i}(), self.{n}@, self.{n}@.len(), b);'
            p(f'            {e}')
        p(f'            lemma_heads_app(self.l{len(fields)}(), seq!["END:"@ + "{up}"@], b); }}')
        p('    }')
        p(f'    //@ impl {SRC.get(name, "crate::components::" + mod)} | Serialize for {name}')
        p('    //@ inherit crate::ser::Serialize')
        p(f'    open spec fn comp() -> Option<Seq<char>> {{ Some("{up}"@) }}')
        p('    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }')
        p('    open spec fn exact() -> bool { false }')
        p('    uninterp spec fn ser(&self) -> Seq<char>;')
        p(f'    /// BEGIN, the fields, the other properties, the sub-components, END')
        p(f'    open spec fn lines(&self) -> Seq<Seq<char>> {{ app(self.l{len(fields)}(), seq!["END:"@ + "{up}"@]) }}')
        p('    //@ method component')
        p('    //@ head')
        up_pat = ' && '.join(f'u[{i}] == \'{c}\'' for i, c in enumerate(up))
        p(f'        proof {{ reveal_strlit("{name}"); reveal_strlit("{up}"); ax_uppercase_ascii("{name}"@); assert(uppercase("{name}"@) =~= "{up}"@); }}')
        p('    //@ end')
        p('    //@ method attr')
        p('    //@ keep')
        p('    //@ end')
        p('    //@ method ical')
        p('    //@ noreveal')
        p('    //@ attr #[verifier::rlimit(60)]')
        p('    //@ head')
        p(f'        proof {{ lemma_writes_none(); lemma_marks(); {name}::lemma_name(); }}')
        loop = clo = 0
        ni = 0
        subs = []
        for i, (n, k, t) in enumerate(fields):
            P = prop(n)
            if k in ('vec', 'list', 'sub'):
                p(f'    //@ closure {clo} |x: &{ty(t)}| -> (r: bool)')
                p(f'            ensures r == x.attr_spec() is None')
                clo += 1
                p(f'    //@ loop {loop} it')
                p(f'            invariant it.seq().len() == self.{n}@.len(), forall|k: int| 0 <= k < self.{n}@.len() ==> *(#[trigger] it.seq()[k]) == self.{n}@[k],')
                p(f'                writes(s@, each_from(self.l{i}(), "{P}"@, self.{n}@, it.index@ as nat))')
                loop += 1
            elif k == 'map':
                p(f'    //@ sub in it: &self.{n} => in it: self.{n}.vx_iter()')
                p(f'    //@ loop {loop} it')
                p(f'            invariant it.seq().len() == self.{n}@.len(), forall|k: int| 0 <= k < self.{n}@.len() ==> *(#[trigger] it.seq()[k]) == self.{n}@[k],')
                p(f'                writes(s@, map_from(self.l{i}(), self.{n}@, it.index@ as nat))')
                loop += 1
        p('    //@ end')
        p('    //@ endimpl')
        p('    //@ norename iter')
        p('    //@ norename push_str')
        p('    //@ props')
        p('}')
    return o

def structs():
    o = ['pub mod components {']
    mods = {}
    for n, (m, _) in C.items(): mods.setdefault(m, []).append(n)
    for m, ns in mods.items():
        o.append(f'pub mod {m} {{')
        o.append('    use vstd::prelude::*;')
        if m == 'vtimezone': o.append('    use crate::xstd::collections::BTreeMap;\n    //@ item crate::components::vtimezone::Component')
        if m == 'valarm': ns = ['VAlarm'] + ns
        for n in ns:
            o.append(f'    //@ item crate::components::{m}::{n}')
            o.append(f'    //@ derived crate::components::{m}::{n} | Clone')
            o.append(f'    impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}')
        o.append('}')
    o.append('//@ item crate::components::Component')
    o.append('pub use valarm::VAlarm; pub use vcalendar::*; pub use vevent::*; pub use vfreebusy::*; pub use vjournal::*; pub use vtimezone::VTimezone; pub use vtodo::*;')
    o.append('}')
    o.append('pub use components::*;')
    return o

# the parsers of property values: field -> (module, kind, type of the value)
def pp(mod, s):
    for w in s.split():
        n, k, *t = w.split(':')
        PARSERS[n] = (mod, k, t[0] if t else '')
PARSERS = {}
pp('alarm', 'action:text repeat:int:u32 ')
PARSERS['trigger'] = ('alarm', 'trigger', 'crate::Trigger')
pp('change', 'created:dt dtstamp:dt last_modified:dt sequence:int:u32')
pp('datetime', 'completed:dt dtend:dodt due:dodt dtstart:dodt')
PARSERS['duration'] = ('datetime', 'span', 'crate::chrono::TimeDelta')
PARSERS['freebusy'] = ('datetime', 'periods', 'Vec<crate::Period>')
PARSERS['transp'] = ('datetime', 'token', 'crate::TimeTransparency')
pp('descriptive', 'attach:text comment:text location:text summary:text description:text categories:texts resources:texts percent_complete:int:u8')
PARSERS['class'] = ('descriptive', 'token', 'crate::Class')
PARSERS['status'] = ('descriptive', 'token', 'crate::Status')
PARSERS['geo'] = ('descriptive', 'geo', 'crate::Geo')
PARSERS['priority'] = ('descriptive', 'priority', 'u8')
PARSERS['rstatus'] = ('misc', 'rstatus', 'crate::RequestStatus')
PARSERS['exdate'] = ('recurrence', 'dates', 'Vec<crate::Date>')
PARSERS['rdate'] = ('recurrence', 'rdate', 'crate::RDate')
PARSERS['rrule'] = ('recurrence', 'rule', 'crate::Recur')
pp('relationship', 'attendee:uri contact:text organizer:uri recurid:dodt related_to:text url:uri uid:text')
pp('timezone', 'tzid:text tzname:text tzurl:uri')
PARSERS['tzoffsetfrom'] = ('timezone', 'token', 'crate::chrono::FixedOffset')
PARSERS['tzoffsetto'] = ('timezone', 'token', 'crate::chrono::FixedOffset')
pp('properties', 'calscale:text method:text prodid:text version:text')

def props():
    o = []
    p = o.append
    p('// Which property a parser reads, and what it makes of its line.')
    p('#[allow(non_camel_case_types)]')
    p('pub mod prop {')
    p('    use vstd::prelude::*;')
    p('    use crate::ContentLine;')
    p('    use crate::xstd::str::FromStr;')
    p('    use crate::parser::datatype::*;')
    p('    pub trait Prop {')
    p('        type V;')
    p('        spec fn name() -> Seq<char>;')
    p('        /// the line may stand for the value; it may be an error')
    p('        spec fn ok(cl: ContentLine, v: Self::V) -> bool;')
    p('        spec fn err(cl: ContentLine) -> bool;')
    p('    }')
    for n, (m, k, t) in sorted(PARSERS.items()):
        v, ok, err = {
            'text': ('crate::Text', 'v.text == cl.value && v.params == cl.params', 'false'),
            'uri': ('crate::Uri', 'v.uri@ == cl.value@ && v.params == cl.params', 'false'),
            'dt': ('crate::DateTime', 'dt_ok(cl.value@, v)', 'dt_err(cl.value@)'),
            'dodt': ('crate::Date', 'dodt_ok(cl.value@, v)', 'dodt_err(cl.value@)'),
            'int': (t, f'<{t} as FromStr>::parse_ok(cl.value@, v)', f'<{t} as FromStr>::parse_err(cl.value@)'),
            'token': (t, f'<{t} as FromStr>::parse_ok(cl.value@, v)', f'<{t} as FromStr>::parse_err(cl.value@)'),
            'priority': ('u8', 'crate::xstd::num::int_text(cl.value@, v as int, false) && v <= 9', 'forall|v: int| 0 <= v <= 9 ==> !#[trigger] crate::xstd::num::int_text(cl.value@, v, false)'),
            'texts': ('Vec<crate::Text>', 'texts_ok(cl, v@)', 'false'),
            'dates': ('Vec<crate::Date>', 'dates_ok(cl.value@, v@)', 'dates_err(cl.value@)'),
            'span': (t, 'crate::spans::span_text(cl.value@, v.ns())', 'crate::spans::no_span_text(cl.value@)'),
            'trigger': (t, 'trigger_ok(cl.value@, v)', 'crate::spans::no_span_text(cl.value@) && dt_err(cl.value@)'),
            'periods': ('Vec<crate::Period>', 'periods_ok(cl.value@, v@)', 'periods_err(cl.value@)'),
            'rdate': (t, 'rdate_ok(cl, v)', 'rdate_err(cl)'),
            'rstatus': (t, 'rstatus_ok(cl.value@, v)', 'rstatus_err(cl.value@)'),
            'geo': (t, 'geo_ok(cl.value@, v)', 'geo_err(cl.value@)'),
            'rule': (t, 'crate::rules::rule_ok(cl.value@, v)', 'crate::rules::rule_err(cl.value@)'),
        }[k]
        p(f'    pub struct P_{n};')
        p(f'    impl Prop for P_{n} {{')
        p(f'        type V = {v};')
        p(f'        open spec fn name() -> Seq<char> {{ "{prop(n)}"@ }}')
        p(f'        open spec fn ok(cl: ContentLine, v: {v}) -> bool {{ {ok} }}')
        p(f'        open spec fn err(cl: ContentLine) -> bool {{ {err} }}')
        p('    }')
        PARSERS[n] = (m, k, v)
    p('}')
    mods = {}
    for n, x in PARSERS.items(): mods.setdefault(x[0], []).append(n)
    for m, ns in mods.items():
        p(f'pub mod {m} {{')
        p('    use vstd::prelude::*;')
        p('    use crate::xstd::prelude::*;')
        p('    use crate::prop::*;')
        p('    use crate::parser::datatype::*;')
        p('    use vstd::std_specs::convert::*;')
        p(f'    //@ uses crate::parser::{m}')
        p('    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};')
        p('    //@ rename split vx_split')
        p('    //@ props C06,C11')
        if m == 'descriptive':
            p('    //@ fn crate::parser::descriptive::text_list')
            p('    //@ ret r')
            p('        ensures texts_ok(*input, r@)')
            p('    //@ closure 0 |x: &str| -> (q: crate::Text)')
            p('            ensures q.text@ == x@, q.params == input.params')
            p('    //@ head')
            p("            proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma()); }")
            p('    //@ end')
        if m == 'misc':
            p("""    //@ fn crate::parser::misc::rstatus::text
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == crate::grammar::front(crate::grammar::Cls::Item, input@), r->Ok_0.0@ == crate::grammar::back(crate::grammar::Cls::Item, input@)
    //@ closure 0 |c: char| -> (b: bool)
            ensures b == (c == ';')
    //@ tail
        proof { crate::grammar::lemma_run_is(crate::grammar::Cls::Item, input@, vx_r->Ok_0.1@.len() as int); }
    //@ end
    //@ fn crate::parser::misc::rstatus::end
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == input@
    //@ closure 0 |c: char| -> (b: bool)
            ensures b
    //@ tail
        proof { assert(vx_r->Ok_0.1@ =~= input@); }
    //@ end""")
        for n in ns:
            m, k, v = PARSERS[n]
            p(f'    //@ fn crate::parser::{m}::{n}')
            p('    //@ ret r')
            p(f'        ensures match r {{ Ok(v) => P_{n}::ok(input, v), Err(_) => P_{n}::err(input) }}')
            if k in ('dt', 'dodt'):
                T = 'crate::DateTime' if k == 'dt' else 'crate::Date'
                p(f'    //@ closure 0 |p: (&str, {T})| -> (q: {T})')
                p('            ensures q == p.1')
            if k == 'dates':
                p('    //@ closure 0 |x: &str| -> (q: crate::Result<crate::Date>)')
                p('            ensures match q { Ok(v) => dodt_ok(x@, v), Err(_) => dodt_err(x@) }')
                p('    //@ closure 1 |y: (&str, crate::Date)| -> (q: crate::Date)')
                p('            ensures q == y.1')
            if k == 'rdate':
                p('    //@ closure 0 |x: &str| -> (q: crate::Result<crate::Date>)')
                p('            ensures match q { Ok(v) => dodt_ok(x@, v), Err(_) => dodt_err(x@) }')
                p('    //@ closure 1 |y: (&str, crate::Date)| -> (q: crate::Date)')
                p('            ensures q == y.1')
            if k in ('dates', 'periods', 'rdate'):
                p('    //@ head')
                p("            proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma());" + (' crate::xstd::lemma_string_eq();' if k == 'rdate' else '') + ' }')
            if k == 'span':
                p(f'    //@ closure 0 |p: (&str, {v})| -> (q: {v})')
                p('            ensures q == p.1')
                p('    //@ head')
                p('            proof { reveal(crate::spans::span_at); reveal(crate::spans::no_span); }')
            if k == 'trigger':
                p(f'    //@ closure 0 |p: (&str, {v})| -> (q: {v})')
                p('            ensures q == p.1')
                p('    //@ head')
                p('            proof { reveal(crate::spans::span_at); reveal(crate::spans::no_span); }')
            if k == 'geo':
                p('    //@ closure 0 |p: (f32, f32)| -> (q: crate::Geo)')
                p('            ensures q.lat == p.0, q.lon == p.1')
                p('    //@ closure 1 |p: (&str, crate::Geo)| -> (q: crate::Geo)')
                p('            ensures q == p.1')
            if k == 'rstatus':
                p('    //@ closure 0 |p: (f32, char, String, Option<String>)| -> (q: crate::RequestStatus)')
                p('            ensures q.statcode == p.0, q.statdesc == p.2, q.extdata == p.3')
                p('    //@ closure 1 |p: (&str, crate::RequestStatus)| -> (q: crate::RequestStatus)')
                p('            ensures q == p.1')
            if k == 'rule': p('    //@ by rules')
            p('    //@ end')
        p('    //@ norename split')
        p('    //@ props')
        p('}')
        p(f'pub(crate) use {m}::*;')
    i = o.index('}') + 1   # end of mod prop
    return o[:next(j for j, l in enumerate(o) if l.startswith('pub mod') and l != 'pub mod prop {')], o[next(j for j, l in enumerate(o) if l.startswith('pub mod') and l != 'pub mod prop {'):]

def read():
    o = []
    p = o.append
    for name, (mod, fields) in C.items():
        names = [n for n, k, t in fields if k not in ('sub', 'map')]
        p(f'pub mod r_{name.lower()} {{')
        p('    use vstd::prelude::*;')
        p('    use vstd::std_specs::convert::*;')
        p('    use crate::xstd::prelude::*;')
        p('    use crate::prop::*;')
        p('    use crate::rlines::*;')
        p('    use crate::ContentLine;')
        p('    use crate::components::*;')
        p('    use crate::components::valarm::{Audio, Display, Email, VAlarm};')
        p('    use crate::components::vtimezone::*;')
        p('    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};')
        p('    //@ rename iter vx_iter')
        p('    //@ rename filter vx_filter')
        p('    //@ rename starts_with vx_starts_with')
        p(f'    impl {name} {{')
        p('        /// the properties it knows')
        p('        pub open spec fn known(k: Seq<char>) -> bool { ' + ' || '.join(f'k == "{prop(n)}"@' for n in names) + ' }')
        p('        #[verifier::opaque]')
        p('        pub open spec fn tag(k: Seq<char>) -> int { ' + ' else '.join(f'if k == "{prop(n)}"@ {{ {i} }}' for i, n in enumerate(names)) + ' else { -1 } }')
        p('        proof fn lemma_tags() ensures ' + ', '.join(f'{name}::tag("{prop(n)}"@) == {i}' for i, n in enumerate(names)))
        p(f'        {{ reveal({name}::tag); ' + ' '.join(f'reveal_strlit("{prop(n)}");' for n in names) + ' }')
        p('        /// after the first n lines (the required properties are read beforehand)')
        p(f'        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: {name}) -> bool {{')
        conj = []
        for n, k, t in fields:
            if k == 'req': conj.append(f'last_rel::<P_{n}>(ls, c.{n})')
            elif k == 'opt': conj.append(f'opt_rel::<P_{n}>(ls, n, c.{n})')
            elif k == 'vec': conj.append(f'vec_rel::<P_{n}>(ls, n, c.{n}@)')
            elif k == 'list': conj.append(f'list_rel::<{TY.get(t, "crate::" + t)}, P_{n}>(ls, n, c.{n}@)')
            elif k == 'sub': conj.append(f'c.{n}@.len() == 0')
        conj.append(f'c.x_prop.map() == others(ls, n, |k: Seq<char>| !{name}::known(k) && is_x(k))')
        conj.append(f'c.iana_prop.map() == others(ls, n, |k: Seq<char>| !{name}::known(k) && !is_x(k))')
        for e in conj: p('            &&& ' + e)
        p('        }')
        p('        /// a required property is missing or wrong, or a line of another known property is')
        p('        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {')
        for n, k, t in fields:
            if k == 'req': p(f'            ||| last_bad::<P_{n}>(ls)')
            elif k in ('opt', 'vec', 'list'): p(f'            ||| some_bad::<P_{n}>(ls)')
        p('        }')
        p('    }')
        p('    //@ props')
        p(f'    impl TryFromSpecImpl<Vec<ContentLine>> for {name} {{')
        p('        open spec fn obeys_try_from_spec() -> bool { false }')
        p(f'        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<{name}, crate::Error> {{ arbitrary() }}')
        p('    }')
        p(f'    //@ props {"C03,C11,C18" if mod == "valarm" else "C03,C11"}')
        p(f'    //@ impl crate::components::{mod} | TryFrom<Vec<crate::ContentLine>> for {name}')
        p('    //@ method try_from')
        p('    //@ ret r')
        p(f'        ensures match r {{ Ok(c) => {name}::read(properties@, properties@.len(), c), Err(_) => {name}::unreadable(properties@) }}')
        p('    //@ noreveal')
        c = 0
        for n, k, t in fields:
            if k != 'req': continue
            p(f'    //@ closure {c} |x: &&ContentLine| -> (q: bool)')
            p(f'            ensures q == (x.key@ == "{prop(n)}"@)')
            p(f'    //@ closure {c+1} || -> (q: crate::Error)')
            c += 2
        p('    //@ head')
        p('        let ghost ls = properties@;')
        p(f'        proof {{ {name}::lemma_tags(); }}')
        p('    //@ loop 0 it')
        p(f'            invariant it.seq() == ls, ' + ', '.join(e.replace('(ls, n,', '(ls, it.index@ as nat,').replace('c.', 'component.') for e in conj) + ', ' + ', '.join(f'{name}::tag("{prop(n)}"@) == {i}' for i, n in enumerate(names)))
        p('    //@ end')
        p('    //@ endimpl')
        p('    //@ norename iter')
        p('    //@ norename filter')
        p('    //@ norename starts_with')
        p('    //@ props')
        p('}')
    return o

def defaults():
    o = ['// A component starts without any property but the required ones.', 'pub mod defaults {', '    use vstd::prelude::*;', '    use crate::xstd::collections::BTreeMap;', '    use crate::components::*;', '    use crate::components::valarm::{Audio, Display, Email};', '    use crate::components::vtimezone::*;']
    for name, (mod, fields) in C.items():
        e = []
        for n, k, t in fields:
            if k == 'opt': e.append(f'r.{n} is None')
            elif k in ('vec', 'list', 'sub', 'map'): e.append(f'r.{n}@.len() == 0')
        if name in ('Standard', 'Daylight'):
            o.append(f'    //@ props C03,C11')
            o.append(f'    //@ impl crate::components::{mod} | {name} | inherent')
            o.append('    //@ method new')
            o.append('    //@ ret r')
            o.append('        ensures ' + ', '.join(e))
            o.append('    //@ end')
            o.append('    //@ endimpl')
            o.append(f'    //@ impl crate::components::{mod} | Default for {name}')
            o.append('    //@ method default')
            o.append('    //@ ret r')
            o.append('        ensures ' + ', '.join(e))
            o.append('    //@ end')
            o.append('    //@ endimpl')
            o.append(f'    //@ props')
        else:
            o.append(f'    //@ derived crate::components::{mod}::{name} | Default')
            o.append(f'    impl core::default::Default for {name} {{')
            o.append(f'        #[verifier::external_body]')
            o.append(f'        fn default() -> (r: Self) ensures ' + ', '.join(e) + ' { unimplemented!() }')
            o.append('    }')
    o.append('}')
    return o
def backs():
    """each property reads the value it was written for"""
    o = ['// What was written under a property, read as that property.', 'pub mod backs {', '    use vstd::prelude::*;', '    use crate::xstd::prelude::*;', '    use crate::ser::*;', '    use crate::grammar::*;', '    use crate::written::*;', '    use crate::again::*;', '    use crate::prop::*;', '    use crate::trip::*;', '    use crate::properties::*;', '    use crate::parser::datatype::*;', '    use crate::ContentLine;', '    use crate::xstd::num::int_text;', '    broadcast use crate::xstd::ax_str_ext;', '    //@ props C11',
         '    proof fn lemma_prop_name(n: Seq<char>)', '        requires n.len() > 0, n.len() != 3, n.len() != 5 || n[0] != \'B\', forall|k: int| 0 <= k < n.len() ==> cls(Cls::Name, #[trigger] n[k])', '        ensures prop_name(n)',
         '    { assert(begin().drop_last().len() == 5 && begin().drop_last()[0] == \'B\'); assert(end().drop_last().len() == 3); }']
    p = o.append
    for n, (m, k, v) in sorted(PARSERS.items()):
        nm = prop(n)
        name = f'proof fn NAME() {{ reveal_strlit("{nm}"); let n = "{nm}"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by {{ assert(' + ' && '.join(f"n[{i}] == '{c}'" for i, c in enumerate(nm)) + '); } ' + (f'assert(n != end().drop_last()) by {{ assert(n[0] != end().drop_last()[0]); }} assert(n != begin().drop_last()) by {{ assert(n.len() != 5); }} ' if len(nm) == 3 else 'lemma_prop_name(n); ') + '}'
        if k in ('texts', 'dates', 'periods'):
            t = v[4:-1]
            p(f'    impl BackList<{t}> for P_{n} {{')
            p('        ' + name.replace('NAME()', 'list_named()'))
            one = {'texts': 'assert(all_fit(seq![x])); lemma_one(x); lemma_texts(seq![x], cl, x.params@);',
                   'dates': 'assert(all_fit(seq![x])); assert(disps(seq![x]) =~= seq![x.disp()]); lemma_dates(seq![x], cl.value@);',
                   'periods': 'assert(all_fit(seq![x])); assert(disps(seq![x]) =~= seq![x.disp()]); lemma_periods(seq![x], cl.value@);'}[k]
            lst = {'texts': 'lemma_no_params(xs); lemma_texts(xs, cl, Seq::empty());',
                   'dates': 'lemma_list_text(xs); assert(sers(xs) =~= disps(xs)); lemma_dates(xs, cl.value@);',
                   'periods': 'lemma_list_text(xs); assert(sers(xs) =~= disps(xs)); lemma_periods(xs, cl.value@);'}[k]
            p(f'        proof fn back_one(x: {t}, cl: ContentLine) {{ {one} }}')
            p(f'        proof fn back_list(xs: Seq<{t}>, cl: ContentLine) {{ {lst} }}')
            p('    }')
            continue
        num = 'broadcast use crate::xstd::num::lemma_int_text; lemma_num_back(x as int, 0); assert forall|v: VV| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_num_back(x as int, v as int); }'
        pr = {
            'text': f'assert forall|v: {v}| #[trigger] Self::ok(cl, v) implies x.same(&v) by {{ lemma_text_back(x, cl, v); }}',
            'uri': f'assert forall|v: {v}| #[trigger] Self::ok(cl, v) implies x.same(&v) by {{ lemma_uri_back(x, cl, v); }}',
            'dt': 'lemma_dt(x);', 'dodt': 'lemma_dodt(x);', 'int': num.replace('VV', v), 'priority': num.replace('VV', v),
            'span': 'broadcast use crate::chrono::ax_span; lemma_span(x); ' + f'assert forall|v: {v}| #[trigger] Self::ok(cl, v) implies x.same(&v) by {{ assert(v.ns() == x.ns()); assert(crate::chrono::span_of(v.ns()) == v); }}',
            'trigger': 'lemma_trigger(x);', 'rdate': 'lemma_rdate(x, cl);', 'rstatus': 'lemma_rstatus(x);', 'geo': '', 'rule': 'lemma_rule(x);',
            'token': {'crate::Class': 'lemma_class(x);', 'crate::chrono::FixedOffset': 'lemma_offset(x);'}.get(v, 'lemma_token(x);'),
        }[k].replace('lemma_token', 'lemma_' + v.split('::')[-1].lower())
        p(f'    impl Back<{v}> for P_{n} {{')
        p(f'        open spec fn can(x: {v}) -> bool {{ {"x <= 9" if k == "priority" else "true"} }}')
        p('        ' + name.replace('NAME()', 'named()'))
        p(f'        proof fn back(x: {v}, cl: ContentLine) {{ {pr} }}')
        p('    }')
    p('    //@ props')
    p('}')
    return o
def rounds():
    """each component is read as it was written"""
    p_ = []
    p = p_.append
    p("""// Each component, written and read again.
pub mod rounds {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::ser::*;
    use crate::lines::*;
    use crate::grammar::*;
    use crate::again::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::glue::lines_of;
    use crate::nest::*;
    use crate::trip::*;
    use crate::round::*;
    use crate::whole::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::components::vtimezone::Component as Part;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11""")
    for name, (mod, fields) in C.items():
        own = [(n, k, t) for n, k, t in fields if k != 'sub']
        N = len(own) - 2
        names = [n for n, k, t in own if k != 'map']
        up = name.upper()
        T = lambda t: TY.get(t, 'crate::' + t)
        p(f"""    impl Form for {name} {{
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int {{ if {name}::tag(k) >= 0 {{ {name}::tag(k) }} else if is_x(k) {{ {N} }} else {{ {N + 1} }} }}
    }}
    impl {name} {{""")
        p(f'        pub proof fn tagged_all() ensures ' + ', '.join(f'tagged::<{name}, P_{n}>({i})' for i, n in enumerate(names)) + ',')
        p(f'            forall|k: Seq<char>| (#[trigger] {name}::tagx(k) == {N}) == (!{name}::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] {name}::tagx(k) == {N + 1}) == (!{name}::known(k) && !is_x(k)),')
        p(f'        {{ reveal({name}::tag); ' + ' '.join(f'reveal_strlit("{prop(n)}");' for n in names) + ' }')
        p('        #[verifier::opaque]')
        ch = []
        for i, (n, k, t) in enumerate(own):
            e = {'req': f'each("{prop(n)}"@, just(self.{n}))', 'opt': f'each("{prop(n)}"@, maybe(self.{n}))', 'vec': f'each("{prop(n)}"@, self.{n}@)',
                 'list': f'chunks("{prop(n)}"@, cut(self.{n}@))', 'map': f'mapped(self.{n}@)'}[k]
            ch.append((i, e))
        p(f'        pub open spec fn part(&self, i: int) -> Lines {{ ' + ' else '.join(f'if i == {i} {{ {e} }}' for i, e in ch[:-1]) + f' else {{ {ch[-1][1]} }} }}')
        p(f'        pub open spec fn parts(&self) -> Seq<Lines> {{ Seq::new({N + 2}, |i: int| self.part(i)) }}')
        p(f'        pub proof fn lemma_parts(&self) ensures self.parts().len() == {N + 2}, ' + ', '.join(f'self.parts()[{i}] == {e}' for i, e in ch))
        p(f'        {{ reveal({name}::part); }}')
        fit = {'req': lambda n, i: f'can_all::<P_{n}, _>(just(self.{n}))', 'opt': lambda n, i: f'can_all::<P_{n}, _>(maybe(self.{n}))', 'vec': lambda n, i: f'can_all::<P_{n}, _>(self.{n}@)',
               'list': lambda n, i: f'all_fit(self.{n}@)', 'map': lambda n, i: f'map_fit::<{name}>(self.{n}@, {i})'}
        same = {'req': 'self.{n}.same(&v.{n})', 'opt': 'same_opt(maybe(self.{n}), v.{n})', 'vec': 'all_same(self.{n}@, v.{n}@)', 'list': 'all_same(self.{n}@, v.{n}@)', 'map': 'same_map(self.{n}, v.{n})'}
        p('        /// the values of its fields have a text that says them')
        p('        #[verifier::opaque]')
        p('        pub open spec fn fields_fit(&self) -> bool {')
        for i, (n, k, t) in enumerate(own): p(f'            &&& {fit[k](n, i)}')
        p('        }')
        p('        /// the fields are the same')
        p('        #[verifier::opaque]')
        p(f'        pub open spec fn same_fields(&self, v: &{name}) -> bool {{')
        for i, (n, k, t) in enumerate(own): p('            &&& ' + same[k].format(n=n))
        p('        }')
        p(f'        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<{name}>(self.l{N + 2}(), "{up}"@, self.parts(), {N + 2}), self.parts().len() == {N + 2}')
        p('        {')
        p(f'            reveal({name}::fields_fit); {name}::tagged_all(); self.lemma_parts();')
        p(f'            let (m, fs) = ("{up}"@, self.parts());')
        p(f'            lemma_begun::<{name}>(m, fs);')
        for i, (n, k, t) in enumerate(own):
            if k in ('req', 'opt', 'vec'): p(f'            grow_{k}::<{name}, P_{n}, _>(self.l{i}(), m, fs, {i}, self.{n}' + ('@' if k == 'vec' else '') + ');')
            elif k == 'list': p(f'            grow_list::<{name}, P_{n}, _>(self.l{i}(), m, fs, {i}, self.{n}@);')
            else: p(f'            grow_map::<{name}>(self.l{i}(), m, fs, {i}, self.{n}@);')
        p('        }')
        p(f'        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)')
        p(f'            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())')
        p(f'            ensures !{name}::unreadable(ls), forall|v: {name}| #[trigger] {name}::read(ls, ls.len(), v) ==> self.same_fields(&v)')
        p('        {')
        p(f'            reveal({name}::fields_fit); reveal({name}::same_fields); {name}::tagged_all(); self.lemma_parts(); self.lemma_written();')
        p(f'            lemma_sels::<{name}>(self.l{N + 2}(), "{up}"@, self.parts());')
        p('            let fs = self.parts();')
        p('            ' + ' '.join(f'assert(sel::<{name}>(lines_of(ls), {i}) == fs[{i}]);' for i in range(N + 2)))
        for i, (n, k, t) in enumerate(own):
            if k != 'map': p(f'            read_{k}::<{name}, P_{n}, _>(ls, {i}, self.{n}' + ('@' if k in ('vec', 'list') else '') + ');')
        p(f'            assert forall|v: {name}| #[trigger] {name}::read(ls, ls.len(), v) implies self.same_fields(&v) by {{')
        p(f'                read_map::<{name}>(ls, {N}, |k: Seq<char>| !{name}::known(k) && is_x(k), self.x_prop, v.x_prop);')
        p(f'                read_map::<{name}>(ls, {N + 1}, |k: Seq<char>| !{name}::known(k) && !is_x(k), self.iana_prop, v.iana_prop);')
        p('            }')
        p('        }')
        p('    }')
    p('}')
    return p_
KINDS = [('Alarm', 'VAlarm', 'alarms'), ('Event', 'VEvent', 'events'), ('Freebusy', 'VFreebusy', 'freebusy'), ('Journal', 'VJournal', 'journals'), ('Todo', 'VTodo', 'todo'), ('Timezone', 'VTimezone', 'timezones')]
PARTS = [('Standard', 'Standard', 'standard'), ('Daylight', 'Daylight', 'daylight')]
def among():
    """components among others, and components of components"""
    p_ = []
    p = p_.append
    p("""// Each component among others, and the components of a component.
pub mod among {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::str::FromStr;
    use crate::ser::*;
    use crate::lines::*;
    use crate::grammar::*;
    use crate::again::*;
    use crate::glue::lines_of;
    use crate::nest::*;
    use crate::entry::text_of;
    use crate::unfold::unfolded;
    use crate::trip::*;
    use crate::round::*;
    use crate::rounds::*;
    use crate::whole::*;
    use crate::walarm::{as_valarm, inner};
    use crate::r_valarm::first_action;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::Component;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::components::vtimezone::Component as Part;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11""")
    M = lambda n: len([1 for f in C[n][1] if f[1] != 'sub'])
    def titled(T, up):
        p(f"""    impl {T} {{
        proof fn bare_name() ensures bare("{up}"@) {{ reveal_strlit("{up}"); let n = "{up}"@; assert({' && '.join(f"n[{i}] == '{c}'" for i, c in enumerate(up))}); }}
    }}
    impl Titled for {T} {{
        open spec fn title() -> Seq<char> {{ "{up}"@ }}
        proof fn title_ok() {{ {T}::bare_name(); }}
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) {{ reveal(<{T} as Piece>::at); reveal(block); reveal(nested); }}
        proof fn opens_with(x: Self, rest: Seq<char>) {{ x.core(rest); }}
    }}""")
    def whole(T, up, sim):
        p(f"""    }}
    impl Whole for {T} {{
        proof fn lines_solid(x: Self) {{ x.core(Seq::empty()); }}
        proof fn no_line(x: Self, rest: Seq<char>) {{ x.core(rest); }}
        proof fn round(x: Self, rest: Seq<char>) {{ x.core(rest); }}
        proof fn not_end(n: Seq<char>, rest: Seq<char>) {{ lemma_not_end::<{T}>(n, rest); }}
    }}""")
        titled(T, up)
        p(f'    proof fn shown_{T.lower()}() ensures forall|x: {T}| #[trigger] x.shows() == x.lines() {{ reveal(<{T} as Shape>::shows); }}')
    core = lambda T, up: f"""            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("{up}"@)) is Some,
                !{T}::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: {T}| #[trigger] {T}::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),"""
    for T in ('VFreebusy', 'VJournal', 'VTodo', 'Standard', 'Daylight'):
        up = T.upper()
        p(f"""    impl {T} {{
        proof fn core(&self, rest: Seq<char>)
{core(T, up)}
        {{
            reveal(<{T} as Shape>::shows);
            {T}::bare_name();
            self.lemma_written();
            lemma_simple::<{T}>("{up}"@, self.l{M(T)}(), self.parts(), rest);
            reveal(<{T} as Piece>::at); reveal(<{T} as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !{T}::unreadable(ls) && forall|v: {T}| #[trigger] {T}::read(ls, ls.len(), v) ==> self.alike(&v) by {{ self.lemma_back(ls); }}
        }}
    }}
    impl Shape for {T} {{
        open spec fn fits(&self) -> bool {{ self.fields_fit() }}
        open spec fn alike(&self, v: &Self) -> bool {{ self.same_fields(v) }}
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts {{ self.lines() }}""")
        whole(T, up, True)
    # alarms
    AL = ('Audio', 'Display', 'Email')
    p("""    /// an alarm of the right kind
    pub open spec fn action_of(v: VAlarm) -> Seq<char> { match v { VAlarm::Audio(x) => x.action.text@, VAlarm::Display(x) => x.action.text@, VAlarm::Email(x) => x.action.text@ } }
    pub open spec fn kind_of(v: VAlarm) -> Seq<char> { match v { VAlarm::Audio(_) => "AUDIO"@, VAlarm::Display(_) => "DISPLAY"@, VAlarm::Email(_) => "EMAIL"@ } }
    proof fn lemma_kinds() ensures "AUDIO"@ != "DISPLAY"@, "AUDIO"@ != "EMAIL"@, "DISPLAY"@ != "EMAIL"@
    { reveal_strlit("AUDIO"); reveal_strlit("DISPLAY"); reveal_strlit("EMAIL"); }
    /// the ACTION that is read is the one that was written
    proof fn lemma_action<T: Form>(rs: Lines, k: Seq<char>, ls: Seq<ContentLine>, r: Line)
        requires lines_of(ls) == rs, forall|n: Seq<char>| (#[trigger] T::tagx(n) == 0) == (n == k), sel::<T>(rs, 0) == seq![r]
        ensures exists|j: int| 0 <= j < ls.len() && (#[trigger] ls[j]).key@ == k, forall|j: int| 0 <= j < ls.len() && (#[trigger] ls[j]).key@ == k ==> ls[j].value@ == r.value
    {
        lemma_sel_some::<T>(rs, 0);
        let j = choose|j: int| 0 <= j < rs.len() && T::tagx((#[trigger] rs[j]).key) == 0;
        assert(rs[j] == crate::glue::line_of(ls[j]));
        assert(ls[j].key@ == k);
        assert forall|j: int| 0 <= j < ls.len() && (#[trigger] ls[j]).key@ == k implies ls[j].value@ == r.value by {
            assert(rs[j] == crate::glue::line_of(ls[j]));
            assert(T::tagx(rs[j].key) == 0);
            lemma_sel_has::<T>(rs, 0, j);
        }
    }""")
    for T in AL:
        up = T.upper()
        p(f"""    impl {T} {{
        proof fn alarm_core(&self, rest: Seq<char>)
            requires self.fields_fit(), self.action.text@ == "{up}"@
            ensures ({{
                let i = ended(as_valarm(self.lines())) + rest;
                &&& all_solid(as_valarm(self.lines())) && g_line(i) is None && after(i, opens("VALARM"@)) is Some && !VAlarm::none(i)
                &&& forall|t: Seq<char>, v: VAlarm| #[trigger] VAlarm::at(i, t, v) ==> t == rest && (v matches VAlarm::{T}(w) && self.same_fields(&w))
            }})
        {{
            VAlarm::bare_name(); lemma_kinds(); {T}::tagged_all(); self.lemma_parts();
            self.lemma_written();
            let l = self.l{M(T)}();
            let fs = self.parts();
            lemma_relabelled::<{T}>("{up}"@, "VALARM"@, l, fs);
            let l2 = l.update(0, begins("VALARM"@));
            assert(as_valarm(self.lines()) =~= app(l2, seq!["END:"@ + "VALARM"@])) by {{ reveal(app); }}
            lemma_simple::<{T}>("VALARM"@, l2, fs, rest);
            lemma_sels::<{T}>(l, "{up}"@, fs);
            assert(sel::<{T}>(flat_lines(fs), 0) == fs[0]);
            let r = line("ACTION"@, self.action);
            assert(fs[0] =~= seq![r]);
            reveal_strlit("{up}"); lemma_esc_plain("{up}"@);
            assert(r.value == "{up}"@);
            reveal(<VAlarm as Piece>::at); reveal(<VAlarm as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(fs) implies !no_alarm_lines(ls) && forall|v: VAlarm| #[trigger] alarm_lines(ls, v) ==> (v matches VAlarm::{T}(w) && self.same_fields(&w)) by {{
                self.lemma_back(ls);
                lemma_action::<{T}>(flat_lines(fs), "ACTION"@, ls, r);
            }}
        }}
    }}""")
    p(f"""    impl VAlarm {{
        proof fn core(&self, rest: Seq<char>)
{core('VAlarm', 'VALARM')}
        {{ reveal(<VAlarm as Shape>::shows); match *self {{ VAlarm::Audio(x) => x.alarm_core(rest), VAlarm::Display(x) => x.alarm_core(rest), VAlarm::Email(x) => x.alarm_core(rest) }} }}
    }}
    impl Shape for VAlarm {{
        /// its ACTION names its kind
        open spec fn fits(&self) -> bool {{ action_of(*self) == kind_of(*self) && match *self {{ VAlarm::Audio(x) => x.fields_fit(), VAlarm::Display(x) => x.fields_fit(), VAlarm::Email(x) => x.fields_fit() }} }}
        open spec fn alike(&self, v: &Self) -> bool {{ match (*self, *v) {{ (VAlarm::Audio(x), VAlarm::Audio(y)) => x.same_fields(&y), (VAlarm::Display(x), VAlarm::Display(y)) => x.same_fields(&y), (VAlarm::Email(x), VAlarm::Email(y)) => x.same_fields(&y), _ => false }} }}
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts {{ self.lines() }}""")
    whole('VAlarm', 'VALARM', False)
    # events
    p(f"""    impl VEvent {{
        proof fn core(&self, rest: Seq<char>)
{core('VEvent', 'VEVENT')}
        {{
            reveal(<VEvent as Shape>::shows); shown_valarm();
            VEvent::bare_name();
            self.lemma_written();
            let xs = self.alarms@;
            lemma_subs(self.l{M('VEvent')}(), "ALARMS"@, xs, xs.len());
            assert(xs.take(xs.len() as int) =~= xs);
            lemma_after(closes("VEVENT"@), rest);
            lemma_nesting::<VEvent, VAlarm>("VEVENT"@, closes("VEVENT"@), self.l{M('VEvent')}(), self.parts(), xs, rest);
            reveal(<VEvent as Piece>::at); reveal(<VEvent as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !VEvent::unreadable(ls) && forall|v: VEvent| #[trigger] VEvent::read(ls, ls.len(), v) ==> self.same_fields(&v) by {{ self.lemma_back(ls); }}
            assert forall|ls: Seq<ContentLine>, vs: Seq<VAlarm>, v: VEvent| lines_of(ls) == flat_lines(self.parts()) && #[trigger] event_of(ls, vs, v) implies self.same_fields(&v) && v.alarms@ == vs by {{
                let e = choose|e: VEvent| #[trigger] VEvent::read(ls, ls.len(), e) && v == (VEvent {{ alarms: v.alarms, ..e }}) && v.alarms@ == vs;
                assert(self.same_fields(&e));
                assert(self.same_fields(&v)) by {{ reveal(VEvent::same_fields); }}
            }}
        }}
    }}
    impl Shape for VEvent {{
        open spec fn fits(&self) -> bool {{ self.fields_fit() && all_fits(self.alarms@) }}
        open spec fn alike(&self, v: &Self) -> bool {{ self.same_fields(v) && all_alike(self.alarms@, v.alarms@) }}
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts {{ self.lines() }}""")
    whole('VEvent', 'VEVENT', False)
    # kinds
    def kinds(E, ks, sel):
        p(f"""    impl Shape for {E} {{
        open spec fn fits(&self) -> bool {{ match *self {{ {' '.join(f'{E}::{k}(x) => x.fits(),' for k, t, f in ks)} }} }}
        open spec fn alike(&self, v: &Self) -> bool {{ match (*self, *v) {{ {' '.join(f'({E}::{k}(x), {E}::{k}(y)) => x.alike(&y),' for k, t, f in ks)} _ => false }} }}
        open spec fn shows(&self) -> Texts {{ match *self {{ {' '.join(f'{E}::{k}(x) => x.shows(),' for k, t, f in ks)} }} }}
    }}
    impl Whole for {E} {{
        proof fn lines_solid(x: Self) {{ match x {{ {' '.join(f'{E}::{k}(x) => {t}::lines_solid(x),' for k, t, f in ks)} }} }}
        proof fn no_line(x: Self, rest: Seq<char>) {{ match x {{ {' '.join(f'{E}::{k}(x) => {t}::no_line(x, rest),' for k, t, f in ks)} }} }}
        proof fn round(x: Self, rest: Seq<char>) {{""")
        p(f'            match x {{ ' + ' '.join(f'{E}::{k}(x) => round_{f}(x, rest),' for k, t, f in ks) + ' }')
        p('        }')
        p(f'        proof fn not_end(n: Seq<char>, rest: Seq<char>) {{ reveal(<{E} as Piece>::at); ' + ' '.join(f'lemma_not_end::<{t}>(n, rest);' for k, t, f in ks) + ' }')
        p('    }')
        p(f'    proof fn lemma_{E.lower()}_titles() ensures ' + ', '.join(f'{t}::title() != {u}::title()' for _, t, _ in ks for _, u, _ in ks if u != t))
        p('    { ' + ' '.join(f'reveal_strlit("{t.upper()}");' for _, t, _ in ks) + ' }')
        for k, t, f in ks:
            g = sel(f)
            p(f"""    /// no other kind is read from it
    proof fn round_{f}(x: {t}, rest: Seq<char>)
        requires x.fits()
        ensures ({{ let i = ended(x.shows()) + rest; !{E}::none(i) && forall|t: Seq<char>, v: {E}| #[trigger] {E}::at(i, t, v) ==> t == rest && {E}::{k}(x).alike(&v) }})
    {{
        reveal(<{E} as Piece>::at); reveal(<{E} as Piece>::none);
        lemma_{E.lower()}_titles();
        {t}::round(x, rest);
        {' '.join(f'lemma_other::<{t}, {u}>(x, rest);' for _, u, _ in ks if u != t)}
    }}""")
            p(f"""    pub open spec fn as_{f}(xs: Seq<{t}>) -> Seq<{E}> {{ Seq::new(xs.len(), |k: int| {E}::{k}(xs[k])) }}
    proof fn lemma_as_{f}(xs: Seq<{t}>)
        requires all_fits(xs)
        ensures all_fits(as_{f}(xs)), wholes(as_{f}(xs)) == wholes(xs)
    {{
        let ys = as_{f}(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by {{ assert(xs[k].fits()); }}
        lemma_wrapped(xs, ys);
    }}
    /// components of a kind stay of that kind
    proof fn lemma_kept_{f}(xs: Seq<{E}>, vs: Seq<{E}>)
        requires all_alike(xs, vs)
        ensures all_alike({g}(xs), {g}(vs))
        decreases xs.len()
    {{
        if xs.len() > 0 {{
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by {{ assert(xs[k].alike(&vs[k])); }}
            lemma_kept_{f}(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = ({g}(a), {g}(b));
            assert forall|k: int| 0 <= k < {g}(xs).len() implies (#[trigger] {g}(xs)[k]).alike(&{g}(vs)[k]) by {{ if k < c.len() {{ assert(c[k].alike(&d[k])); }} }}
        }}
    }}
    proof fn lemma_add_{f}(a: Seq<{E}>, b: Seq<{E}>)
        ensures {g}(a + b) == {g}(a) + {g}(b)
        decreases b.len()
    {{
        if b.len() == 0 {{ assert(a + b =~= a); assert({g}(a) + {g}(b) =~= {g}(a)); }} else {{
            lemma_add_{f}(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert({g}(a + b) =~= {g}(a) + {g}(b));
        }}
    }}
    proof fn lemma_own_{f}(xs: Seq<{t}>)
        ensures {g}(as_{f}(xs)) == xs
        decreases xs.len()
    {{
        if xs.len() > 0 {{
            lemma_own_{f}(xs.drop_last());
            assert(as_{f}(xs).drop_last() =~= as_{f}(xs.drop_last()));
            assert({g}(as_{f}(xs)) =~= xs);
        }} else {{ assert({g}(as_{f}(xs)) =~= xs); }}
    }}
    proof fn lemma_not_{f}(xs: Seq<{E}>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is {k})
        ensures {g}(xs).len() == 0
        decreases xs.len()
    {{
        if xs.len() > 0 {{
            assert(!(xs[xs.len() - 1] is {k}));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is {k}) by {{ assert(!(xs[k] is {k})); }}
            lemma_not_{f}(xs.drop_last());
        }}
    }}""")
        args = ', '.join(f'{f}: Seq<{t}>' for k, t, f in ks)
        cat = ' + '.join(f'as_{f}({f})' for k, t, f in ks)
        p(f'    pub open spec fn all_{E.lower()}s({args}) -> Seq<{E}> {{ {cat} }}')
        pre = ', '.join(f'all_fits({f})' for k, t, f in ks)
        ens = ', '.join(f'all_alike({f}, {sel(f)}(vs))' for k, t, f in ks)
        al = f'all_{E.lower()}s(' + ', '.join(f for k, t, f in ks) + ')'
        wc = ' + '.join(f'wholes({f})' for k, t, f in ks)
        p(f"""    proof fn lemma_all_{E.lower()}s({args})
        requires {pre}
        ensures all_fits({al}), wholes({al}) == {wc},
            forall|vs: Seq<{E}>| #[trigger] all_alike({al}, vs) ==> {ens.replace(', all_alike', ' && all_alike')},
    {{""")
        acc = None
        for k, t, f in ks:
            p(f'        lemma_as_{f}({f}); lemma_own_{f}({f});')
            for _, _, h in ks:
                if h != f: p(f'        lemma_not_{h}(as_{f}({f}));')
            if acc is None: acc = f'as_{f}({f})'
            else:
                p(f'        lemma_wholes_add({acc}, as_{f}({f})); lemma_fits_add({acc}, as_{f}({f}));')
                for _, _, h in ks: p(f'        lemma_add_{h}({acc}, as_{f}({f}));')
                acc = f'{acc} + as_{f}({f})'
        for k, t, f in ks:
            p(f'        assert({sel(f)}({al}) =~= {f});')
        p(f'        assert forall|vs: Seq<{E}>| #[trigger] all_alike({al}, vs) implies {ens.replace(", all_alike", " && all_alike")} by {{ ' + ' '.join(f'lemma_kept_{f}({al}, vs);' for k, t, f in ks) + ' }')
        p('    }')
    p("""    proof fn lemma_fits_add<O: Whole>(a: Seq<O>, b: Seq<O>)
        requires all_fits(a), all_fits(b)
        ensures all_fits(a + b)
    { assert forall|k: int| 0 <= k < (a + b).len() implies (#[trigger] (a + b)[k]).fits() by { if k < a.len() { assert(a[k].fits()); } else { assert(b[k - a.len()].fits()); } } }""")
    kinds('Part', PARTS, lambda f: f + 's')
    def nest(T, up, E, ks, of, sel, close):
        m = M(T)
        args = ', '.join(f'self.{f}@' for k, t, f in ks)
        upd = ', '.join(f'{f}: v.{f}' for k, t, f in ks)
        eqs = ' && '.join(f'v.{f}@ == {sel(f)}(vs)' for k, t, f in ks)
        p(f"""    impl {T} {{
        pub open spec fn all_subs(&self) -> Seq<{E}> {{ all_{E.lower()}s({args}) }}
        pub open spec fn subs_alike(&self, v: &{T}) -> bool {{ {' && '.join(f'all_alike(self.{f}@, v.{f}@)' for k, t, f in ks)} }}
        proof fn lemma_lines(&self)
            requires {', '.join(f'all_fits(self.{f}@)' for k, t, f in ks)}
            ensures self.shows() == closed("{up}"@, self.l{m}(), wholes(self.all_subs())), all_fits(self.all_subs())
        {{""")
        p(f'            shown_{T.lower()}(); ' + ' '.join(f'shown_{t.lower()}();' for k, t, f in ks))
        for i, (k, t, f) in enumerate(ks):
            p(f'            lemma_subs(self.l{m + i}(), "{prop(f)}"@, self.{f}@, self.{f}@.len());')
            p(f'            assert(self.{f}@.take(self.{f}@.len() as int) =~= self.{f}@);')
        acc = f'wholes(self.{ks[0][2]}@)'
        for k, t, f in ks[1:]:
            p(f'            lemma_app_app(self.l{m}(), {acc}, wholes(self.{f}@));')
            acc = f'{acc} + wholes(self.{f}@)'
        p(f"""            lemma_all_{E.lower()}s({args});
        }}
        proof fn lemma_of(&self, ls: Seq<ContentLine>, vs: Seq<{E}>, v: {T})
            requires self.fields_fit(), {', '.join(f'all_fits(self.{f}@)' for k, t, f in ks)}, lines_of(ls) == flat_lines(self.parts()), {of}(ls, vs, v), all_alike(self.all_subs(), vs)
            ensures self.same_fields(&v), self.subs_alike(&v)
        {{
            self.lemma_back(ls);
            lemma_all_{E.lower()}s({args});
            let e = choose|e: {T}| #[trigger] {T}::read(ls, ls.len(), e) && v == ({T} {{ {upd}, ..e }}) && {eqs};
            assert(self.same_fields(&e));
            assert(self.same_fields(&v)) by {{ reveal({T}::same_fields); }}
        }}
    }}""")
    def nestcore(T, up, E, of, close):
        p(f"""            self.lemma_written();
            self.lemma_lines();
            let xs = self.all_subs();
            lemma_nesting::<{T}, {E}>("{up}"@, {close}, self.l{M(T)}(), self.parts(), xs, rest);
            let i = ended(self.shows()) + rest;
            assert(!{T}::none(i)) by {{
                reveal(<{T} as Piece>::none);
                assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !#[trigger] {T}::unreadable(ls) by {{ self.lemma_back(ls); }}
            }}
            assert forall|t: Seq<char>, v: {T}| #[trigger] {T}::at(i, t, v) implies Some(t) == after(closes("{up}"@) + rest, {close}) && self.same_fields(&v) && self.subs_alike(&v) by {{
                reveal(<{T} as Piece>::at);
                let (ls, vs) = choose|ls: Seq<ContentLine>, vs: Seq<{E}>| #[trigger] {of}(ls, vs, v) && nested(opens("{up}"@), {close}, i, t, ls, vs);
                self.lemma_of(ls, vs, v);
            }}""")
    nest('VTimezone', 'VTIMEZONE', 'Part', PARTS, 'timezone_of', lambda f: f + 's', 'closes("VTIMEZONE"@)')
    p(f"""    impl VTimezone {{
        proof fn core(&self, rest: Seq<char>)
{core('VTimezone', 'VTIMEZONE')}
        {{
            lemma_after(closes("VTIMEZONE"@), rest); VTimezone::bare_name();""")
    nestcore('VTimezone', 'VTIMEZONE', 'Part', 'timezone_of', 'closes("VTIMEZONE"@)')
    p(f"""        }}
    }}
    impl Shape for VTimezone {{
        open spec fn fits(&self) -> bool {{ self.fields_fit() && all_fits(self.standard@) && all_fits(self.daylight@) }}
        open spec fn alike(&self, v: &Self) -> bool {{ self.same_fields(v) && all_alike(self.standard@, v.standard@) && all_alike(self.daylight@, v.daylight@) }}
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts {{ self.lines() }}""")
    whole('VTimezone', 'VTIMEZONE', False)
    kinds('Component', KINDS, lambda f: 'its_' + f)
    up = 'VCALENDAR'
    fs = [f for k, t, f in KINDS]
    p(f"""    impl VCalendar {{
        proof fn bare_name() ensures bare("{up}"@) {{ reveal_strlit("{up}"); let n = "{up}"@; assert({' && '.join(f"n[{i}] == '{c}'" for i, c in enumerate(up))}); }}
    }}
    proof fn lemma_calendar_end(rest: Seq<char>)
        ensures after(closes("{up}"@) + rest, calendar_end()) is Some
    {{
        reveal_strlit("END:"); reveal_strlit("{up}"); reveal_strlit("END:{up}");
        assert(closes("{up}"@) + rest =~= calendar_end() + ("\\r\\n"@ + rest));
        lemma_after(calendar_end(), "\\r\\n"@ + rest);
    }}
    proof fn lemma_app_app(l: Texts, a: Texts, b: Texts)
        ensures app(app(l, a), b) == app(l, a + b)
    {{ reveal(app); assert(l + a + b =~= l + (a + b)); }}""")
    nest('VCalendar', up, 'Component', KINDS, 'calendar_of', lambda f: 'its_' + f, 'calendar_end()')
    p(f"""    impl Shape for VCalendar {{
        open spec fn fits(&self) -> bool {{ self.fields_fit() && {' && '.join(f'all_fits(self.{f}@)' for f in fs)} }}
        open spec fn alike(&self, v: &Self) -> bool {{ self.same_fields(v) && {' && '.join(f'all_alike(self.{f}@, v.{f}@)' for f in fs)} }}
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts {{ self.lines() }}
    }}
    proof fn shown_vcalendar() ensures forall|x: VCalendar| #[trigger] x.shows() == x.lines() {{ reveal(<VCalendar as Shape>::shows); }}
    impl VCalendar {{
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), !VCalendar::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VCalendar| #[trigger] VCalendar::at(ended(self.shows()) + rest, t, v) ==> self.alike(&v),
        {{
            VCalendar::bare_name(); lemma_calendar_end(rest);""")
    nestcore('VCalendar', up, 'Component', 'calendar_of', 'calendar_end()')
    p('        }')
    p('    }')
    # what a user sees
    for T in ('VCalendar', 'VEvent', 'VTodo', 'VJournal', 'VFreebusy', 'VTimezone', 'VAlarm'):
        p(f"""    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_{T.lower()}(c: {T}, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<{T} as FromStr>::parse_err(s), forall|v: {T}| #[trigger] <{T} as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {{
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }}
    fn vx_again_{T.lower()}(c: &{T})
        requires c.fits()
    {{
        if let Ok(s) = ical(c) {{
            proof {{ shown_{T.lower()}(); lemma_again_{T.lower()}(*c, s@); }}
            let r = <{T} as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        }} else {{ assert(false); }}
    }}""")
    p('}')
    return p_
a, b = props()
open(os.path.join(V, 'contracts/p_prop.rs'), 'w').write('// generated by tools/gencomp.py\n' + '\n'.join(a) + '\n')
open(os.path.join(V, 'contracts/p_props.rs'), 'w').write('// generated by tools/gencomp.py: the parsers of property values\n' + '\n'.join(b) + '\n')
open(os.path.join(V, 'contracts/p_rcomp.rs'), 'w').write('// generated by tools/gencomp.py\n' + '\n'.join(defaults() + read()) + '\n')
open(os.path.join(V, 'contracts/p_components.rs'), 'w').write('// generated by tools/gencomp.py: the components, as declared\n' + '\n'.join(structs()) + '\n')
open(os.path.join(V, 'contracts/p_wcomp.rs'), 'w').write('// generated by tools/gencomp.py\n' + '\n'.join(write()) + '\n')
open(os.path.join(V, 'contracts/p_backs.rs'), 'w').write('// generated by tools/gencomp.py\n' + '\n'.join(backs()) + '\n')
open(os.path.join(V, 'contracts/p_rounds.rs'), 'w').write('// generated by tools/gencomp.py\n' + '\n'.join(rounds()) + '\n')
open(os.path.join(V, 'contracts/p_among.rs'), 'w').write('// generated by tools/gencomp.py\n' + '\n'.join(among()) + '\n')
