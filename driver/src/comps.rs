//! The fields of each component, as RFC 5545 and the crate's documentation name them.
use crate::model::*;
use crate::rng::Rng;

/// one content line as text pieces
#[derive(Clone, Debug)]
pub struct L {
    pub name: String,
    pub params: Params,
    pub value: String,
}
impl L {
    pub fn text(&self) -> String {
        let mut s = self.name.clone();
        for (k, v) in &self.params {
            s.push_str(&format!(";{k}={}", param_text(v)));
        }
        s.push(':');
        s.push_str(&self.value);
        s
    }
}

pub trait Comp: Sized + Clone + PartialEq + std::fmt::Debug + std::str::FromStr<Err = ikal::Error> + ikal::ser::Serialize {
    const NAME: &'static str;
    /// lines and the component they make (None: an error)
    fn case(r: &mut Rng, broken: bool) -> (Vec<L>, Option<Self>);
    fn val(r: &mut Rng, g: G) -> Self;
    fn tree(&self) -> Tree;
}

fn props(r: &mut Rng, g: G, x: bool) -> Vec<(String, Params, String)> {
    let mut v: Vec<(String, Params, String)> = vec![];
    if r.pct(60) {
        return v;
    }
    for _ in 0..1 + r.some(3) {
        let n = if x { format!("X-{}", name(r)) } else { format!("Q{}", name(r)) };
        v.push((n, params(r, g), text(r, g.special, if g.special { 0 } else { 1 })));
    }
    v
}

macro_rules! comp {
    ($t:ty, $n:expr, $base:expr, [$($kind:ident $f:ident $p:literal $k:ident),* $(,)?], kids |$kr:ident, $kg:ident, $kx:ident| $kids:expr, sub |$sx:ident, $st:ident| $sub:expr) => {
        impl Comp for $t {
            const NAME: &'static str = $n;
            #[allow(unused_assignments, unused_mut)]
            fn case(r: &mut Rng, broken: bool) -> (Vec<L>, Option<Self>) {
                let mut lines: Vec<L> = vec![];
                // fields and how often they occur
                let mut names: Vec<(&str, &str)> = vec![$((stringify!($kind), $p)),*];
                names.push(("x", ""));
                names.push(("x", ""));
                names.push(("iana", ""));
                let density = *r.pick(&[5usize, 30, 70]);
                let mut order: Vec<&str> = vec![];
                for (k, p) in &names {
                    let must = *k == "req" && !(broken && r.chance(6));
                    let n = if must { 1 + if r.chance(6) { 1 } else { 0 } } else if *k == "req" { 0 } else if r.pct(density) { 1 + r.some(3) } else { 0 };
                    for _ in 0..n {
                        order.push(if *k == "x" { "X-" } else if *k == "iana" { "?" } else { p });
                    }
                }
                for i in (1..order.len()).rev() {
                    let j = r.below(i + 1);
                    order.swap(i, j);
                }
                let mut c: Self = $base;
                let mut err = false;
                $( let mut $f: Option<Option<<$k as Kind>::T>> = None; )*
                let mut echo = crate::rng::Echo::default();
                for p in order {
                    let back = echo.begin(r);
                    if p == "X-" || p == "?" {
                        let nm = if p == "X-" { format!("X-{}", r.pick(&["A", "B", "CALNAME", ""])) } else { r.pick(&["Q", "COLOR", "DTSTARTX", "UI", "x-low", "-X-", "XX-1", "A/B"]).to_string() };
                        let (pa, va, _) = TextK::wire(r);
                        let l = L { name: nm.clone(), params: pa.clone(), value: va.clone() };
                        let m = if nm.starts_with("X-") { &mut c.x_prop } else { &mut c.iana_prop };
                        m.insert(nm.clone(), va.as_str().into());
                        let e = m.get_mut(&nm).unwrap();
                        e.params = pa;
                        e.key = nm;
                        lines.push(l);
                        echo.end(r, back);
                        continue;
                    }
                    let mut done = false;
                    $(
                        if !done && p == $p {
                            done = true;
                            let mut l = L { name: $p.into(), params: Params::new(), value: String::new() };
                            let bad = if broken && r.chance(12) { <$k>::bad(r) } else { None };
                            if let Some(b) = bad {
                                l.value = b;
                                comp!(@bad $kind err $f);
                            } else {
                                let mut vals: Vec<(Params, String, <$k as Kind>::T)> = vec![<$k>::wire(r)];
                                if stringify!($kind) == "app" {
                                    let mut e = crate::rng::Echo::default(); for _ in 0..r.some(4) { let b = e.begin(r); vals.push(<$k>::wire(r)); e.end(r, b); }
                                }
                                l.params = vals[0].0.clone();
                                l.value = vals.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",");
                                if stringify!($kind) == "app" && r.chance(4) { l.params = params(r, WIRE); }
                                let vals: Vec<_> = vals.into_iter().map(|x| (x.0, x.1, <$k>::with_params(x.2, &l.params))).collect();
                                comp!(@put $kind c $f vals);
                            }
                            lines.push(l);
                        }
                    )*
                    assert!(done, "{p}");
                    echo.end(r, back);
                }
                $( comp!(@fin $kind err c $f); )*
                (lines, if err { None } else { Some(c) })
            }
            #[allow(unused_variables)]
            fn val(r: &mut Rng, g: G) -> Self {
                let mut c: Self = $base;
                let density = *r.pick(&[5usize, 30, 70]);
                $( comp!(@val $kind c $f $k r g density); )*
                for (n, p, t) in props(r, g, true) {
                    c.x_prop.insert(n.clone(), t.as_str().into());
                    let e = c.x_prop.get_mut(&n).unwrap();
                    e.params = p; e.key = n;
                }
                for (n, p, t) in props(r, g, false) {
                    c.iana_prop.insert(n.clone(), t.as_str().into());
                    let e = c.iana_prop.get_mut(&n).unwrap();
                    e.params = p; e.key = n;
                }
                { let ($kr, $kg, $kx) = (r, g, &mut c); $kids; }
                c
            }
            #[allow(unused_mut)]
            fn tree(&self) -> Tree {
                let mut t = Tree::new($n);
                $( comp!(@tree $kind self t $f $p $k); )*
                for m in [&self.x_prop, &self.iana_prop] {
                    for (k, v) in m.iter() {
                        if !esc(&v.value).is_empty() {
                            t.lines.push(line(k, if v.params.is_empty() { None } else { Some(params_text(&v.params)) }, &esc(&v.value)));
                        }
                    }
                }
                { let ($sx, $st) = (self, &mut t); $sub; }
                t
            }
        }
    };
    (@bad req $err:ident $f:ident) => { $f = Some(None) };
    (@bad $kind:ident $err:ident $f:ident) => { $err = true };
    (@put req $c:ident $f:ident $v:ident) => { $f = Some(Some($v[0].2.clone())) };
    (@put opt $c:ident $f:ident $v:ident) => {{ let _ = &$f; $c.$f = Some($v[0].2.clone()) }};
    (@put vec $c:ident $f:ident $v:ident) => {{ let _ = &$f; $c.$f.push($v[0].2.clone()) }};
    (@put app $c:ident $f:ident $v:ident) => {{ let _ = &$f; for x in $v.iter() { $c.$f.push(x.2.clone()) } }};
    (@fin req $err:ident $c:ident $f:ident) => { match $f { Some(Some(v)) => $c.$f = v, _ => $err = true } };
    (@fin $kind:ident $err:ident $c:ident $f:ident) => { let _ = &$f; };
    (@val req $c:ident $f:ident $k:ident $r:ident $g:ident $d:ident) => { $c.$f = <$k>::val($r, $g) };
    (@val opt $c:ident $f:ident $k:ident $r:ident $g:ident $d:ident) => { if $r.pct($d) { $c.$f = Some(<$k>::val($r, $g)) } };
    (@val vec $c:ident $f:ident $k:ident $r:ident $g:ident $d:ident) => { if $r.pct($d) { let mut e = crate::rng::Echo::default(); for _ in 0..1 + $r.some(3) { let b = e.begin($r); $c.$f.push(<$k>::val($r, $g)); e.end($r, b); } } };
    (@val app $c:ident $f:ident $k:ident $r:ident $g:ident $d:ident) => { if $r.pct($d) { let mut e = crate::rng::Echo::default(); for _ in 0..1 + $r.some(3) { let b = e.begin($r); $c.$f.push(<$k>::val($r, $g)); e.end($r, b); } } };
    (@tree req $s:ident $t:ident $f:ident $p:literal $k:ident) => {{ let v = <$k>::ser(&$s.$f); if !v.is_empty() { $t.lines.push(line($p, <$k>::attr(&$s.$f), &v)) } }};
    (@tree opt $s:ident $t:ident $f:ident $p:literal $k:ident) => { if let Some(x) = &$s.$f { let v = <$k>::ser(x); if !v.is_empty() { $t.lines.push(line($p, <$k>::attr(x), &v)) } } };
    (@tree vec $s:ident $t:ident $f:ident $p:literal $k:ident) => { for x in &$s.$f { let v = <$k>::ser(x); if !v.is_empty() { $t.lines.push(line($p, <$k>::attr(x), &v)) } } };
    (@tree app $s:ident $t:ident $f:ident $p:literal $k:ident) => {
        if $s.$f.iter().all(|x| <$k>::attr(x).is_none()) {
            let v = $s.$f.iter().map(|x| <$k>::ser(x)).collect::<Vec<_>>().join(",");
            if !v.is_empty() { $t.lines.push(line($p, None, &v)) }
        } else {
            for x in &$s.$f { let v = <$k>::ser(x); if !v.is_empty() { $t.lines.push(line($p, <$k>::attr(x), &v)) } }
        }
    };
}

comp!(ikal::VEvent, "VEVENT", ikal::VEvent::default(), [
    req dtstamp "DTSTAMP" DateTimeK, req uid "UID" TextK, req dtstart "DTSTART" DateK, opt class "CLASS" ClassK,
    opt created "CREATED" DateTimeK, opt description "DESCRIPTION" TextK, opt geo "GEO" GeoK, opt last_modified "LAST-MODIFIED" DateTimeK,
    opt location "LOCATION" TextK, opt organizer "ORGANIZER" UriK, opt priority "PRIORITY" PrioK, opt sequence "SEQUENCE" U32K,
    opt status "STATUS" StatusK, opt summary "SUMMARY" TextK, opt transp "TRANSP" TranspK, opt url "URL" UriK, opt recurid "RECURID" DateK,
    opt rrule "RRULE" RecurK, opt dtend "DTEND" DateK, opt duration "DURATION" DurK, vec attach "ATTACH" TextK, vec attendee "ATTENDEE" UriK,
    app categories "CATEGORIES" ItemK, vec comment "COMMENT" TextK, vec contact "CONTACT" TextK, app exdate "EXDATE" DateK,
    vec rstatus "RSTATUS" RstatusK, vec related_to "RELATED-TO" TextK, app resources "RESOURCES" ItemK, vec rdate "RDATE" RdateK,
], kids |r, g, c| { if r.chance(3) { let mut e = crate::rng::Echo::default(); for _ in 0..1 + r.some(3) { let b = e.begin(r); c.alarms.push(alarm(r, g)); e.end(r, b); } } }, sub |s, t| { for a in &s.alarms { t.kids.push(alarm_tree(a)) } });
comp!(ikal::VTodo, "VTODO", ikal::VTodo::default(), [
    req dtstamp "DTSTAMP" DateTimeK, req uid "UID" TextK, opt class "CLASS" ClassK, opt completed "COMPLETED" DateTimeK,
    opt created "CREATED" DateTimeK, opt dtstart "DTSTART" DateK, opt geo "GEO" GeoK, opt last_modified "LAST-MODIFIED" DateTimeK,
    opt location "LOCATION" TextK, opt organizer "ORGANIZER" UriK, opt percent_complete "PERCENT-COMPLETE" U8K, opt priority "PRIORITY" PrioK,
    opt recurid "RECURID" DateK, opt sequence "SEQUENCE" U32K, opt status "STATUS" StatusK, opt summary "SUMMARY" TextK, opt url "URL" UriK,
    opt rrule "RRULE" RecurK, opt due "DUE" DateK, opt duration "DURATION" DurK, vec attach "ATTACH" TextK, vec attendee "ATTENDEE" UriK,
    app categories "CATEGORIES" ItemK, vec comment "COMMENT" TextK, vec contact "CONTACT" TextK, app exdate "EXDATE" DateK,
    vec rstatus "RSTATUS" RstatusK, vec related_to "RELATED-TO" TextK, app resources "RESOURCES" ItemK, vec rdate "RDATE" RdateK,
], kids |_r, _g, _c| {}, sub |_s, _t| {});
comp!(ikal::VJournal, "VJOURNAL", ikal::VJournal::default(), [
    req dtstamp "DTSTAMP" DateTimeK, req uid "UID" TextK, opt class "CLASS" ClassK, opt created "CREATED" DateTimeK,
    req dtstart "DTSTART" DateK, opt last_modified "LAST-MODIFIED" DateTimeK, opt organizer "ORGANIZER" UriK, opt recurid "RECURID" DateK,
    opt sequence "SEQUENCE" U32K, opt status "STATUS" StatusK, opt summary "SUMMARY" TextK, opt url "URL" UriK, opt rrule "RRULE" RecurK,
    vec attach "ATTACH" TextK, vec attendee "ATTENDEE" UriK, app categories "CATEGORIES" ItemK, vec comment "COMMENT" TextK, vec contact "CONTACT" TextK,
    vec description "DESCRIPTION" TextK, app exdate "EXDATE" DateK, vec related_to "RELATED-TO" TextK, vec rdate "RDATE" RdateK, vec rstatus "RSTATUS" RstatusK,
], kids |_r, _g, _c| {}, sub |_s, _t| {});
comp!(ikal::VFreebusy, "VFREEBUSY", ikal::VFreebusy::default(), [
    req dtstamp "DTSTAMP" DateTimeK, req uid "UID" TextK, opt contact "CONTACT" TextK, opt dtstart "DTSTART" DateK, opt dtend "DTEND" DateK,
    opt organizer "ORGANIZER" UriK, opt url "URL" UriK, vec attendee "ATTENDEE" UriK, vec comment "COMMENT" TextK, app freebusy "FREEBUSY" PeriodK,
    vec rstatus "RSTATUS" RstatusK,
], kids |_r, _g, _c| {}, sub |_s, _t| {});
comp!(ikal::vtimezone::Standard, "STANDARD", ikal::vtimezone::Standard::default(), [
    req dtstart "DTSTART" DateK, req tzoffsetto "TZOFFSETTO" OffsetK, req tzoffsetfrom "TZOFFSETFROM" OffsetK, opt rrule "RRULE" RecurK,
    vec comment "COMMENT" TextK, vec rdate "RDATE" RdateK, vec tzname "TZNAME" TextK,
], kids |_r, _g, _c| {}, sub |_s, _t| {});
comp!(ikal::vtimezone::Daylight, "DAYLIGHT", ikal::vtimezone::Daylight::default(), [
    req dtstart "DTSTART" DateK, req tzoffsetto "TZOFFSETTO" OffsetK, req tzoffsetfrom "TZOFFSETFROM" OffsetK, opt rrule "RRULE" RecurK,
    vec comment "COMMENT" TextK, vec rdate "RDATE" RdateK, vec tzname "TZNAME" TextK,
], kids |_r, _g, _c| {}, sub |_s, _t| {});
comp!(ikal::VTimezone, "VTIMEZONE", ikal::VTimezone::default(), [
    req tzid "TZID" TextK, opt last_modified "LAST-MODIFIED" DateTimeK, opt tzurl "TZURL" UriK,
], kids |r, g, c| { let mut e = crate::rng::Echo::default(); for _ in 0..r.some(4) { let b = e.begin(r); if r.chance(2) { c.standard.push(Comp::val(r, g)) } else { c.daylight.push(Comp::val(r, g)) } e.end(r, b); } },
   sub |s, t| { for x in &s.standard { t.kids.push(x.tree()) } for x in &s.daylight { t.kids.push(x.tree()) } });
comp!(ikal::VCalendar, "VCALENDAR", ikal::VCalendar::default(), [
    req prodid "PRODID" TextK, req version "VERSION" TextK, opt calscale "CALSCALE" TextK, opt method "METHOD" TextK,
], kids |r, g, c| { let mut e = crate::rng::Echo::default(); for _ in 0..r.some(6) { let b = e.begin(r); match r.below(6) {
        0 => c.alarms.push(alarm(r, g)), 1 => c.events.push(Comp::val(r, g)), 2 => c.freebusy.push(Comp::val(r, g)),
        3 => c.journals.push(Comp::val(r, g)), 4 => c.todo.push(Comp::val(r, g)), _ => c.timezones.push(Comp::val(r, g)) } e.end(r, b); } },
   sub |s, t| {
        for x in &s.alarms { t.kids.push(alarm_tree(x)) }
        for x in &s.events { t.kids.push(x.tree()) }
        for x in &s.freebusy { t.kids.push(x.tree()) }
        for x in &s.journals { t.kids.push(x.tree()) }
        for x in &s.todo { t.kids.push(x.tree()) }
        for x in &s.timezones { t.kids.push(x.tree()) }
   });
comp!(ikal::valarm::Audio, "AUDIO", ikal::valarm::Audio::default(), [
    req action "ACTION" TextK, req trigger "TRIGGER" TriggerK, opt duration "DURATION" DurK, opt repeat "REPEAT" U32K, vec attach "ATTACH" TextK,
], kids |_r, _g, _c| {}, sub |_s, _t| {});
comp!(ikal::valarm::Display, "DISPLAY", ikal::valarm::Display::default(), [
    req action "ACTION" TextK, req trigger "TRIGGER" TriggerK, req description "DESCRIPTION" TextK, opt duration "DURATION" DurK, opt repeat "REPEAT" U32K,
], kids |_r, _g, _c| {}, sub |_s, _t| {});
comp!(ikal::valarm::Email, "EMAIL", ikal::valarm::Email::default(), [
    req action "ACTION" TextK, req trigger "TRIGGER" TriggerK, req description "DESCRIPTION" TextK, req summary "SUMMARY" TextK,
    vec attendee "ATTENDEE" UriK, opt duration "DURATION" DurK, opt repeat "REPEAT" U32K, vec attach "ATTACH" TextK,
], kids |_r, _g, _c| {}, sub |_s, _t| {});

pub fn alarm(r: &mut Rng, g: G) -> ikal::VAlarm {
    // built directly: the conversions are what C18 checks
    match r.below(3) {
        0 => {
            let mut a: ikal::valarm::Audio = Comp::val(r, g);
            a.action = act("AUDIO");
            ikal::VAlarm::Audio(a)
        }
        1 => {
            let mut a: ikal::valarm::Display = Comp::val(r, g);
            a.action = act("DISPLAY");
            ikal::VAlarm::Display(a)
        }
        _ => {
            let mut a: ikal::valarm::Email = Comp::val(r, g);
            a.action = act("EMAIL");
            ikal::VAlarm::Email(a)
        }
    }
}
pub fn act(s: &str) -> ikal::Text {
    ikal::Text { params: Params::new(), text: s.to_string() }
}
pub fn alarm_tree(a: &ikal::VAlarm) -> Tree {
    let mut t = match a {
        ikal::VAlarm::Audio(x) => x.tree(),
        ikal::VAlarm::Display(x) => x.tree(),
        ikal::VAlarm::Email(x) => x.tree(),
    };
    t.name = "VALARM".into();
    t
}
pub fn lines_text(ls: &[L]) -> String {
    ls.iter().map(|l| format!("{}\r\n", l.text())).collect()
}
pub fn block(name: &str, inner: &str) -> String {
    format!("BEGIN:{name}\r\n{inner}END:{name}\r\n")
}
/// folds at random character positions
pub fn fold(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = s.chars().collect();
    let p = *r.pick(&[2usize, 10, 40]);
    for (i, x) in c.iter().enumerate() {
        // anywhere but inside a CRLF or right before one's CR following a CR
        if i > 0 && r.chance(p) && !(c[i - 1] == '\r' && *x == '\n') {
            o.push_str("\r\n");
            o.push(if r.chance(2) { ' ' } else { '\t' });
        }
        o.push(*x);
    }
    o
}
