use crate::comps::*;
use crate::model::*;
use crate::rng::Rng;
use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, TimeDelta, TimeZone};
use ikal::ser::Serialize;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::str::FromStr;
use std::sync::Mutex;

pub type Oracle = fn(&mut Rng) -> R;
pub type R = Result<(), String>;

static LAST: Mutex<String> = Mutex::new(String::new());
thread_local!(static PANIC: RefCell<String> = RefCell::new(String::new()));
pub fn last() -> String {
    LAST.lock().map(|s| s.clone()).unwrap_or_default() + &PANIC.with(|p| format!("\n{}", p.borrow()))
}
pub fn input() -> String {
    LAST.lock().map(|s| s.clone()).unwrap_or_default()
}
pub fn clear() {
    if let Ok(mut l) = LAST.lock() {
        l.clear();
    }
}
pub fn note_panic(s: String) {
    PANIC.with(|p| *p.borrow_mut() = s);
}
fn note(s: &str) {
    if let Ok(mut l) = LAST.lock() {
        *l = format!("{s:?}");
    }
}
pub fn find(p: &str) -> Option<Oracle> {
    Some(match p {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => c07,
        "C08" => c08,
        "C09" => c09,
        "C10" => c10,
        "C11" => c11,
        "C12" => c12,
        "C13" => c13,
        "C14" => c14,
        "C15" => c15,
        "C16" => c16,
        "C17" => c17,
        "C18" => c18,
        _ => return None,
    })
}

fn eq<T: PartialEq + Debug>(what: &str, input: &dyn Debug, got: &T, want: &T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}\ninput:    {input:?}\nobserved: {got:?}\nexpected: {want:?}"))
    }
}
fn parse<T: FromStr>(s: &str) -> Result<T, T::Err> {
    note(s);
    s.parse()
}
/// compares a parse with the expected value (None: an error)
fn parses<T: FromStr<Err = ikal::Error> + PartialEq + Debug + Clone>(what: &str, s: &str, want: &Option<T>) -> R {
    match (parse::<T>(s), want) {
        (Ok(g), Some(w)) => eq(what, &s, &g, w),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("{what}\ninput:    {s:?}\nobserved: {g:?}\nexpected: an error")),
        (Err(e), Some(w)) => Err(format!("{what}\ninput:    {s:?}\nobserved: error {e:?}\nexpected: {w:?}")),
    }
}
fn write<T: Serialize + Debug>(v: &T) -> Result<String, String> {
    note(&format!("{v:?}"));
    ikal::ser::ical(v).map_err(|e| format!("serialising fails\ninput: {v:?}\nerror: {e:?}"))
}
fn unfold(s: &str) -> String {
    s.replace("\r\n ", "")
}

// ------------------------------------------------------------------ C01

const SEED_TOKENS: &[&str] = &[
    "BEGIN:", "END:", "VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "VALARM", "STANDARD", "DAYLIGHT", "AUDIO", "DISPLAY", "EMAIL", "\r\n", "\r\n", "\n", "\r",
    "DTSTART:", "DTEND:", "DUE:", "DTSTAMP:", "UID:", "RRULE:", "FREQ=", "DAILY", "COUNT=", "INTERVAL=", "UNTIL=", "BYDAY=", "BYHOUR=", "WKST=", "MO", "20240101", "T000000", "Z", "/", "PT1H", "P1W", "-P", "P", "T", "W", "D",
    "9223372036854775807", "99999999999999999999", "-1", "0", "255", "256", "é", "日本", "🎉", ";", ":", ",", "=", "\"", "ACTION:", "TRIGGER:", "DURATION:", "FREEBUSY:", "RDATE;VALUE=PERIOD:", "EXDATE:", "GEO:", "1.5;2.5",
    "TZOFFSETTO:", "+0100", "PRIORITY:", "RSTATUS:", "2.0;Success", "X-A:", "CATEGORIES:", "VERSION:2.0", "PRODID:x", "TZID:x", "\r\n ", "\r\n\t", "inf", "NaN", "1e999", "\0", "-", "+", "CLASS:", "STATUS:", "20240331T023000Z", "00000101", "99991231T235960", "TZOFFSETFROM:-2360",
];
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(4) {
        let i = r.below(c.len() + 1);
        match r.below(6) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => {
                for x in r.pick(SEED_TOKENS).chars().rev() {
                    c.insert(i, x);
                }
            }
            2 => c.truncate(i),
            3 => {
                let j = (i + 1 + r.below(20)).min(c.len());
                if i < j {
                    c.drain(i..j);
                }
            }
            4 => {
                let j = (i + 1 + r.below(40)).min(c.len());
                if i < j {
                    let d: Vec<char> = c[i..j].to_vec();
                    for x in d.into_iter().rev() {
                        c.insert(i, x);
                    }
                }
            }
            _ if i < c.len() => c[i] = *r.pick(&['é', '0', '9', ':', ';', '\n', '\r', 'T', 'Z', 'P', '/', '-', '日', '=', ',', '"', 'X']),
            _ => {}
        }
    }
    c.into_iter().collect()
}
fn junk(r: &mut Rng) -> String {
    (0..r.below(12)).map(|_| *r.pick(SEED_TOKENS)).collect()
}
fn wire_of(r: &mut Rng, k: usize, broken: bool) -> String {
    fn b<C: Comp>(r: &mut Rng, broken: bool) -> String {
        block(C::NAME, &lines_text(&C::case(r, broken).0))
    }
    match k {
        0 => calendar_text(r, broken, 0).0,
        1 => b::<ikal::VEvent>(r, broken),
        2 => b::<ikal::VTodo>(r, broken),
        3 => b::<ikal::VJournal>(r, broken),
        4 => b::<ikal::VFreebusy>(r, broken),
        5 => b::<ikal::VTimezone>(r, broken),
        6 => b::<ikal::vtimezone::Standard>(r, broken),
        7 => b::<ikal::vtimezone::Daylight>(r, broken),
        8 => block("VALARM", &lines_text(&alarm_case(r, broken).0)),
        9 => b::<ikal::valarm::Audio>(r, broken),
        10 => b::<ikal::valarm::Display>(r, broken),
        _ => b::<ikal::valarm::Email>(r, broken),
    }
}
fn total<T: FromStr + Serialize>(s: &str) {
    if let Ok(v) = parse::<T>(s) {
        let _ = ikal::ser::ical(&v);
    }
}
fn c01(r: &mut Rng) -> R {
    let k = r.below(12);
    let s = match r.below(4) {
        0 => junk(r),
        1 => {
            let b = wire_of(r, k, true);
            mutate(r, &b)
        }
        2 => wire_of(r, k, true),
        _ => {
            // one value
            let (v, n) = one_value(r);
            let v = if r.chance(2) { mutate(r, &v) } else { v };
            values_total(&v);
            let b = wire_of(r, k, false);
            let p = b.find("END:").unwrap_or(0);
            format!("{}{}:{}\r\n{}", &b[..p], n, v, &b[p..])
        }
    };
    if r.chance(3) {
        values_total(&s);
    }
    match k {
        0 => total::<ikal::VCalendar>(&s),
        1 => total::<ikal::VEvent>(&s),
        2 => total::<ikal::VTodo>(&s),
        3 => total::<ikal::VJournal>(&s),
        4 => total::<ikal::VFreebusy>(&s),
        5 => total::<ikal::VTimezone>(&s),
        6 => total::<ikal::vtimezone::Standard>(&s),
        7 => total::<ikal::vtimezone::Daylight>(&s),
        8 => total::<ikal::VAlarm>(&s),
        9 => total::<ikal::valarm::Audio>(&s),
        10 => total::<ikal::valarm::Display>(&s),
        _ => total::<ikal::valarm::Email>(&s),
    }
    Ok(())
}
fn values_total(s: &str) {
    total::<ikal::Date>(s);
    total::<ikal::DateTime>(s);
    total::<ikal::Period>(s);
    total::<ikal::Recur>(s);
    total::<ikal::Freq>(s);
    total::<ikal::Weekday>(s);
    total::<ikal::WeekdayNum>(s);
    total::<ikal::Status>(s);
    total::<ikal::Class>(s);
    total::<ikal::TimeTransparency>(s);
    total::<ikal::Geo>(s);
    total::<ikal::RequestStatus>(s);
    total::<ikal::Trigger>(s);
    note(s);
    let _ = ikal::parse_duration(s);
}
/// a value text and the name of a property it belongs to
fn one_value(r: &mut Rng) -> (String, &'static str) {
    fn k<K: Kind>(r: &mut Rng) -> String {
        if r.chance(4) {
            if let Some(b) = K::bad(r) {
                return b;
            }
        }
        K::wire(r).1
    }
    match r.below(15) {
        0 => (k::<DateK>(r), "DTSTART"),
        1 => (k::<DateTimeK>(r), "DTSTAMP"),
        2 => (k::<DurK>(r), "DURATION"),
        3 => (k::<TriggerK>(r), "TRIGGER"),
        4 => (k::<RecurK>(r), "RRULE"),
        5 => (k::<PeriodK>(r), "FREEBUSY"),
        6 => (k::<RdateK>(r), "RDATE;VALUE=PERIOD"),
        7 => (k::<GeoK>(r), "GEO"),
        8 => (k::<RstatusK>(r), "RSTATUS"),
        9 => (k::<OffsetK>(r), "TZOFFSETTO"),
        10 => (k::<PrioK>(r), "PRIORITY"),
        11 => (k::<U32K>(r), "SEQUENCE"),
        12 => (k::<StatusK>(r), "STATUS"),
        13 => {
            let (p, u) = (*r.pick(&["P", "-P", "PT", "-PT", "P1W", "P1DT"]), *r.pick(&["W", "D", "H", "M", "S", "Y"]));
            (format!("{p}{}{u}", r.pick(&["9223372036854775807", "9223372036854775", "106751991167300", "15250284452471", "99999999999999999999", "0", ""])), "DURATION")
        }
        _ => (k::<TextK>(r), "X-A"),
    }
}

// ------------------------------------------------------------------ C02

fn pname(r: &mut Rng) -> String {
    name(r)
}
fn c02(r: &mut Rng) -> R {
    // raw content lines inside a journal
    let mut want_x: std::collections::BTreeMap<String, (Params, String)> = Default::default();
    let mut want_i = want_x.clone();
    let mut s = String::new();
    let nl = |r: &mut Rng| if r.chance(3) { "\n" } else { "\r\n" };
    let mut order: Vec<usize> = (0..3 + r.below(6)).collect();
    for i in (1..order.len()).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    let mut comments = vec![];
    for o in order {
        match o {
            0 => s.push_str(&format!("DTSTAMP:20240102T030405{}", nl(r))),
            1 => s.push_str(&format!("UID:u{}", nl(r))),
            2 => s.push_str(&format!("DTSTART:20240102{}", nl(r))),
            _ => {
                let x = r.below(3);
                let n = match x {
                    0 => format!("X-{}", r.pick(&["A", "B", "", "X-", "a1"])),
                    1 => format!("Q{}", r.pick(&["", "A", "/B", "-x", "9", "RRULE"])),
                    _ => "COMMENT".to_string(),
                };
                let mut p = Params::new();
                s.push_str(&n);
                for _ in 0..r.some(4) {
                    let k = if r.chance(8) { String::new() } else if r.chance(2) { r.pick(&["A", "B"]).to_string() } else { pname(r) };
                    let t: String = wire_text(r).chars().filter(|c| *c != '"').take(if r.chance(5) { 100 } else { 12 }).collect();
                    let plain = !t.contains(':') && !t.contains(';');
                    if plain && r.chance(2) {
                        s.push_str(&format!(";{k}={t}"));
                    } else {
                        s.push_str(&format!(";{k}=\"{t}\""));
                    }
                    p.insert(k, t);
                }
                let v = wire_text(r);
                s.push_str(&format!(":{v}{}", nl(r)));
                match x {
                    0 => drop(want_x.insert(n, (p, v))),
                    1 => drop(want_i.insert(n, (p, v))),
                    _ => comments.push(ikal::Text { params: p, text: v }),
                }
            }
        }
    }
    let broken = r.chance(5);
    if broken {
        // a line that is none stops the list: what follows cannot be read as the component
        let cut: Vec<usize> = s.match_indices('\n').map(|x| x.0 + 1).chain([0]).collect();
        let at = *r.pick(&cut);
        let bad = *r.pick(&["NOCOLON\r\n", "\r\n", "A B:x\r\n", "É:x\r\n", ";A=b:x\r\nEND:VALARM\r\n", "A;B:x\r\n", "END:\r\n", "BEGIN:\r\n", "END:X\r\n", "BEGIN:X\r\n"]);
        if r.chance(2) {
            s.insert_str(at, bad);
        } else {
            // one character that no name may have, in a name or in the name of a parameter
            let c = *r.pick(&['_', '.', '+', '!', '(', ')', '*', '&', '%', '$', '#', '@', '~', ',', '=', '\\', '?', '<', '|', '[', '`', '\t', ' ', '\u{7f}', 'é', 'ß', '٣', 'Ａ', '\u{b2}', '\u{2010}', '"', '\'']);
            let mut n: Vec<char> = name(r).chars().collect();
            let param = r.chance(3) && c != '=' && c != '"';
            n.insert(if c == ' ' || c == '\t' { 1 + r.below(n.len()) } else { r.below(n.len() + 1) }, c);
            let n: String = n.into_iter().collect();
            s.insert_str(at, &if param { format!("X-A;{n}=v:x\r\n") } else { format!("{n}:x\r\n") });
        }
    }
    let mut full = block("VJOURNAL", &s);
    if r.chance(2) {
        full = fold(r, &full);
    }
    match (parse::<ikal::VJournal>(&full), broken) {
        (Err(_), true) => Ok(()),
        (Ok(j), true) => Err(format!("a malformed line is accepted\ninput:    {full:?}\nobserved: {j:?}")),
        (Err(e), false) => Err(format!("well-formed content lines are rejected\ninput:    {full:?}\nobserved: error {e:?}")),
        (Ok(j), false) => {
            let x: std::collections::BTreeMap<String, (Params, String)> = j.x_prop.iter().map(|(k, v)| (k.clone(), (v.params.clone(), v.value.clone()))).collect();
            let i: std::collections::BTreeMap<String, (Params, String)> = j.iana_prop.iter().map(|(k, v)| (k.clone(), (v.params.clone(), v.value.clone()))).collect();
            eq("X- lines", &full, &x, &want_x)?;
            eq("other lines", &full, &i, &want_i)?;
            for (k, v) in j.x_prop.iter().chain(j.iana_prop.iter()) {
                eq("name of a kept line", &full, &v.key, k)?;
            }
            eq("COMMENT lines", &full, &j.comment, &comments)?;
            eq("UID", &full, &j.uid.text, &"u".to_string())?;
            eq("DTSTART", &full, &j.dtstart, &ikal::Date::Date(NaiveDate::from_ymd_opt(2024, 1, 2).unwrap()))
        }
    }
}

// ------------------------------------------------------------------ C03

fn field_case<C: Comp>(r: &mut Rng) -> R {
    let broken = r.chance(2);
    let (l, w) = C::case(r, broken);
    let mut s = block(C::NAME, &lines_text(&l));
    if r.chance(4) {
        s = fold(r, &s);
    }
    parses(C::NAME, &s, &w)
}
fn c03(r: &mut Rng) -> R {
    match r.below(11) {
        0 | 1 => field_case::<ikal::VEvent>(r),
        2 => field_case::<ikal::VTodo>(r),
        3 => field_case::<ikal::VJournal>(r),
        4 => field_case::<ikal::VFreebusy>(r),
        5 => field_case::<ikal::VTimezone>(r),
        6 => field_case::<ikal::vtimezone::Standard>(r),
        7 => field_case::<ikal::vtimezone::Daylight>(r),
        8 => {
            let broken = r.chance(2);
            let (l, w) = ikal::VCalendar::case(r, broken);
            parses("VCALENDAR", &block("VCALENDAR", &lines_text(&l)), &w)
        }
        9 => field_case::<ikal::valarm::Audio>(r),
        _ => {
            if r.chance(2) {
                field_case::<ikal::valarm::Display>(r)
            } else {
                field_case::<ikal::valarm::Email>(r)
            }
        }
    }
}

// ------------------------------------------------------------------ C04 and C18

/// alarm lines and the alarm they make
pub fn alarm_case(r: &mut Rng, broken: bool) -> (Vec<L>, Option<ikal::VAlarm>) {
    fn go<C: Comp>(r: &mut Rng, kind: &str, broken: bool, set: fn(&mut C, ikal::Text), mk: fn(C) -> ikal::VAlarm) -> (Vec<L>, Option<ikal::VAlarm>) {
        let (mut l, c) = C::case(r, broken);
        let mut act = None;
        let mut first = true;
        for x in l.iter_mut().filter(|x| x.name == "ACTION") {
            if first {
                x.value = kind.into();
            }
            first = false;
            act = Some(ikal::Text { params: x.params.clone(), text: x.value.clone() });
        }
        let c = match (c, act) {
            (Some(mut c), Some(a)) => {
                set(&mut c, a);
                Some(mk(c))
            }
            _ => None,
        };
        (l, c)
    }
    let (mut l, mut c) = match r.below(3) {
        0 => go::<ikal::valarm::Audio>(r, "AUDIO", broken, |c, a| c.action = a, ikal::VAlarm::Audio),
        1 => go::<ikal::valarm::Display>(r, "DISPLAY", broken, |c, a| c.action = a, ikal::VAlarm::Display),
        _ => go::<ikal::valarm::Email>(r, "EMAIL", broken, |c, a| c.action = a, ikal::VAlarm::Email),
    };
    if broken && r.chance(3) {
        if r.chance(2) {
            l.retain(|x| x.name != "ACTION");
        } else if let Some(x) = l.iter_mut().find(|x| x.name == "ACTION") {
            x.value = r.pick(&["", "audio", "AUDIO ", "PROCEDURE", "DISPLA", "EMAILS", "X-NONE", "VALARM"]).to_string();
        }
        c = None;
    }
    (l, c)
}
fn any_line<C: Comp>(r: &mut Rng, spoil: &mut bool, bad: bool) -> (String, Option<C>) {
    let (l, c) = C::case(r, bad);
    if c.is_none() {
        *spoil = true;
    }
    (block(C::NAME, &lines_text(&l)), c)
}
/// a calendar text and what it means (None: an error)
fn calendar_text(r: &mut Rng, broken: bool, _depth: usize) -> (String, Option<ikal::VCalendar>) {
    let (l, c) = ikal::VCalendar::case(r, false);
    let mut c = c.unwrap();
    let mut spoil = false;
    let mut kids: Vec<String> = vec![];
    let n = r.some(6);
    let at = if broken { r.below(n.max(1)) } else { usize::MAX };
    let how = r.below(8);
    let mut echo = crate::rng::Echo::default();
    for i in 0..n {
        let back = echo.begin(r);
        let bad = i == at && how == 0;
        let mut t = match r.below(6) {
            0 => {
                let (l, a) = alarm_case(r, bad);
                match a {
                    Some(a) => c.alarms.push(a),
                    None => spoil = true,
                }
                block("VALARM", &lines_text(&l))
            }
            1 => {
                let (l, e) = ikal::VEvent::case(r, bad);
                let mut s = lines_text(&l);
                let mut al = vec![];
                let mut echo = crate::rng::Echo::default();
                for _ in 0..if r.chance(2) { r.some(4) } else { 0 } {
                    let back = echo.begin(r);
                    let (l, a) = alarm_case(r, i == at && how == 1);
                    echo.end(r, back);
                    match a {
                        Some(a) => al.push(a),
                        None => spoil = true,
                    }
                    s.push_str(&block("VALARM", &lines_text(&l)));
                }
                match e {
                    Some(mut e) => {
                        e.alarms = al;
                        c.events.push(e)
                    }
                    None => spoil = true,
                }
                block("VEVENT", &s)
            }
            2 => {
                let (t, x) = any_line::<ikal::VFreebusy>(r, &mut spoil, bad);
                c.freebusy.extend(x);
                t
            }
            3 => {
                let (t, x) = any_line::<ikal::VJournal>(r, &mut spoil, bad);
                c.journals.extend(x);
                t
            }
            4 => {
                let (t, x) = any_line::<ikal::VTodo>(r, &mut spoil, bad);
                c.todo.extend(x);
                t
            }
            _ => {
                let (l, z) = ikal::VTimezone::case(r, bad);
                let mut s = lines_text(&l);
                let (mut st, mut dl) = (vec![], vec![]);
                let mut echo = crate::rng::Echo::default();
                for _ in 0..r.some(4) {
                    let back = echo.begin(r);
                    let b = i == at && how == 2;
                    if r.chance(2) {
                        let (t, x) = any_line::<ikal::vtimezone::Standard>(r, &mut spoil, b);
                        st.extend(x);
                        s.push_str(&t);
                    } else {
                        let (t, x) = any_line::<ikal::vtimezone::Daylight>(r, &mut spoil, b);
                        dl.extend(x);
                        s.push_str(&t);
                    }
                    echo.end(r, back);
                }
                match z {
                    Some(mut z) => {
                        z.standard = st;
                        z.daylight = dl;
                        c.timezones.push(z)
                    }
                    None => spoil = true,
                }
                block("VTIMEZONE", &s)
            }
        };
        echo.end(r, back);
        if i == at && how >= 3 {
            // structural damage
            let last = t.rfind("END:").unwrap();
            match how {
                3 => t.truncate(last),
                4 => {
                    let old = t[last..].to_string();
                    let new = r.pick(&["END:VEVENT\r\n", "END:VTODO\r\n", "END:VALARM\r\n", "END:VCALENDAR\r\n", "END:STANDARD\r\n", "END:VJOURNAL\r\n"]).to_string();
                    if new == old {
                        t.truncate(last);
                    } else {
                        t.truncate(last);
                        t.push_str(&new);
                    }
                }
                5 => {
                    // opened twice
                    let e = t.find("\r\n").unwrap() + 2;
                    let b = t[..e].to_string();
                    t.insert_str(0, &b);
                }
                6 => t = block(r.pick(&["VFOO", "STANDARD", "AUDIO", "VCALENDAR", "vevent", ""]), ""),
                _ => t.insert_str(last, "BEGIN:X-FOO\r\nEND:X-FOO\r\n"),
            }
            spoil = true;
        }
        kids.push(t);
    }
    let mut s = lines_text(&l);
    let own = s.clone();
    s.push_str(&kids.concat());
    let mut s = block("VCALENDAR", &s);
    if broken && r.chance(4) {
        match r.below(3) {
            0 => s.truncate(s.rfind("END:").unwrap()),
            1 => s = s.replace("BEGIN:VCALENDAR", "BEGIN:VCALENDARS"),
            // a property line after a sub-component
            _ => {
                if !kids.is_empty() {
                    s = block("VCALENDAR", &format!("{own}{}X-LATE:1\r\n", kids.concat()));
                } else {
                    s.truncate(s.rfind("END:").unwrap());
                }
            }
        }
        spoil = true;
    }
    (s, if spoil { None } else { Some(c) })
}
fn c04(r: &mut Rng) -> R {
    let broken = r.chance(2);
    let (s, w) = calendar_text(r, broken, 0);
    let s = if r.chance(6) { fold(r, &s) } else { s };
    parses("VCALENDAR", &s, &w)
}
fn c18(r: &mut Rng) -> R {
    let broken = r.chance(2);
    let (l, w) = alarm_case(r, broken);
    let s = block("VALARM", &lines_text(&l));
    let s = if r.chance(4) { fold(r, &s) } else { s };
    parses("VALARM", &s, &w)?;
    // conversions
    let g = if r.chance(2) { ANY } else { TRIP };
    match r.below(3) {
        0 => {
            let a: ikal::valarm::Audio = Comp::val(r, g);
            let mut w = a.clone();
            w.action = act("AUDIO");
            eq("an audio alarm as a generic alarm", &a, &ikal::VAlarm::from(a.clone()), &ikal::VAlarm::Audio(w))?;
        }
        1 => {
            let a: ikal::valarm::Display = Comp::val(r, g);
            let mut w = a.clone();
            w.action = act("DISPLAY");
            eq("a display alarm as a generic alarm", &a, &ikal::VAlarm::from(a.clone()), &ikal::VAlarm::Display(w))?;
        }
        _ => {
            let a: ikal::valarm::Email = Comp::val(r, g);
            let mut w = a.clone();
            w.action = act("EMAIL");
            eq("an e-mail alarm as a generic alarm", &a, &ikal::VAlarm::from(a.clone()), &ikal::VAlarm::Email(w))?;
        }
    }
    let a = alarm(r, ANY);
    tree_of(&a, &alarm_tree(&a))
}

// ------------------------------------------------------------------ C05

fn token_case<T: FromStr<Err = ikal::Error> + TryFrom<String, Error = ikal::Error> + PartialEq + Debug + Clone + Serialize + ToString>(r: &mut Rng, toks: &[(&'static str, T)], other: fn(&str) -> Option<T>) -> R {
    let (t, v) = r.pick(toks).clone();
    parses("token", t, &Some(v.clone()))?;
    eq("token from String", &t, &T::try_from(t.to_string()).ok(), &Some(v.clone()))?;
    eq("token written", &v, &v.to_string(), &t.to_string())?;
    eq("token serialised", &v, &write(&v)?, &t.to_string())?;
    let m = match r.below(5) {
        0 => t.to_lowercase(),
        1 => format!("{t}{}", r.pick(&[" ", "X", "\r\n", "S", ",", "é"])),
        2 => t[..t.len() - 1].to_string(),
        3 => r.pick(&["", "NEEDS_ACTION", "INPROCESS", "CANCELED", "Weekly", "WE ", "MON", "X", "ÉÉ", "é", "🎉🎉", "S", "TRANSPARENT ", "PUBLIC;X", "ACCEPTED", "MS", "SM", "\0\0"]).to_string(),
        _ => mutate(r, t),
    };
    let w = toks.iter().find(|x| x.0 == m).map(|x| x.1.clone()).or_else(|| other(&m));
    parses("token", &m, &w)?;
    eq("token from String", &m, &T::try_from(m.clone()).ok(), &w)
}
fn c05(r: &mut Rng) -> R {
    token_case(r, &STATUSES, |_| None)?;
    token_case(r, &FREQS, |_| None)?;
    token_case(r, &DAYS, |_| None)?;
    token_case(r, &[("OPAQUE", ikal::TimeTransparency::Opaque), ("TRANSPARENT", ikal::TimeTransparency::Transparent)], |_| None)?;
    token_case(r, &[("PUBLIC", ikal::Class::Public), ("PRIVATE", ikal::Class::Private), ("CONFIDENTIAL", ikal::Class::Confidential)], |s| Some(ikal::Class::Custom(s.to_string())))?;
    let t = text(r, true, 0);
    let c = ikal::Class::Custom(t.clone());
    eq("custom class written", &t, &c.to_string(), &t.to_uppercase())
}

// ------------------------------------------------------------------ C06

fn value_case<K: Kind>(r: &mut Rng, get: fn(&mut Rng, L) -> (String, Result<K::T, ikal::Error>), line_name: &str) -> R {
    let bad = if r.chance(4) { K::bad(r) } else { None };
    let (p, t, want) = match bad {
        Some(b) => (Params::new(), b, None),
        None => {
            let (p, t, v) = K::wire(r);
            (p, t, Some(v))
        }
    };
    let (s, got) = get(r, L { name: line_name.into(), params: p, value: t });
    match (got, want) {
        (Ok(g), Some(w)) => eq(line_name, &s, &g, &w),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("{line_name}\ninput:    {s:?}\nobserved: {g:?}\nexpected: an error")),
        (Err(e), Some(w)) => Err(format!("{line_name}\ninput:    {s:?}\nobserved: error {e:?}\nexpected: {w:?}")),
    }
}
fn event_with(l: L) -> (String, Result<ikal::VEvent, ikal::Error>) {
    let base = match l.name.as_str() {
        "DTSTART" => "UID:u\r\nDTSTAMP:20240101T000000\r\n",
        "DTSTAMP" => "UID:u\r\nDTSTART:20240101\r\n",
        _ => "UID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101\r\n",
    };
    let s = block("VEVENT", &format!("{base}{}\r\n", l.text()));
    let v = parse(&s);
    (s, v)
}
fn todo_with(l: L) -> (String, Result<ikal::VTodo, ikal::Error>) {
    let s = block("VTODO", &format!("UID:u\r\nDTSTAMP:20240101T000000\r\n{}\r\n", l.text()));
    let v = parse(&s);
    (s, v)
}
macro_rules! ev {
    ($r:ident, $k:ty, $n:literal, |$e:ident| $x:expr) => {
        value_case::<$k>($r, |_, l| { let (s, v) = event_with(l); (s, v.map(|$e| $x)) }, $n)
    };
}
fn c06(r: &mut Rng) -> R {
    match r.below(22) {
        0 => ev!(r, DateK, "DTSTART", |e| e.dtstart),
        1 => ev!(r, DateTimeK, "DTSTAMP", |e| e.dtstamp),
        2 => ev!(r, DateK, "DTEND", |e| e.dtend.unwrap()),
        3 => ev!(r, DateTimeK, "CREATED", |e| e.created.unwrap()),
        4 => ev!(r, DateTimeK, "LAST-MODIFIED", |e| e.last_modified.unwrap()),
        5 => ev!(r, TextK, "SUMMARY", |e| e.summary.unwrap()),
        6 => ev!(r, UriK, "ORGANIZER", |e| e.organizer.unwrap()),
        7 => ev!(r, UriK, "ATTENDEE", |e| e.attendee.into_iter().next().unwrap()),
        8 => ev!(r, PrioK, "PRIORITY", |e| e.priority.unwrap()),
        9 => ev!(r, U32K, "SEQUENCE", |e| e.sequence.unwrap()),
        10 => ev!(r, RdateK, "RDATE", |e| e.rdate.into_iter().next().unwrap()),
        11 => ev!(r, RstatusK, "RSTATUS", |e| e.rstatus.into_iter().next().unwrap()),
        12 => ev!(r, GeoK, "GEO", |e| e.geo.unwrap()),
        13 => ev!(r, ClassK, "CLASS", |e| e.class.unwrap()),
        14 => ev!(r, UriK, "URL", |e| e.url.unwrap()),
        15 => ev!(r, DateK, "RECURID", |e| e.recurid.unwrap()),
        16 => value_case::<U8K>(r, |_, l| { let (s, v) = todo_with(l); (s, v.map(|e| e.percent_complete.unwrap())) }, "PERCENT-COMPLETE"),
        17 => value_case::<DateTimeK>(r, |_, l| { let (s, v) = todo_with(l); (s, v.map(|e| e.completed.unwrap())) }, "COMPLETED"),
        18 => {
            // TRIGGER and REPEAT
            let b = if r.chance(4) { TriggerK::bad(r) } else { None };
            let (t, w) = match b {
                Some(b) => (b, None),
                None => {
                    let x = TriggerK::wire(r);
                    (x.1, Some(x.2))
                }
            };
            let s = block("VALARM", &format!("ACTION:AUDIO\r\nTRIGGER:{t}\r\nREPEAT:4\r\n"));
            let want = w.map(|w| {
                let mut a = ikal::valarm::Audio::default();
                a.action = act("AUDIO");
                a.trigger = w;
                a.repeat = Some(4);
                ikal::VAlarm::Audio(a)
            });
            parses("TRIGGER", &s, &want)
        }
        19 => {
            // direct entry points
            let (t, v) = period(r, WIRE);
            parses("period", &t, &Some(v.clone()))?;
            eq("period from String", &t, &ikal::Period::try_from(t.clone()).ok(), &Some(v))?;
            let b = PeriodK::bad(r).unwrap();
            parses::<ikal::Period>("period", &b, &None)?;
            let (_, t, v) = GeoK::wire(r);
            parses("geo", &t, &Some(v))?;
            let (_, t, v) = RstatusK::wire(r);
            parses("request status", &t, &Some(v))
        }
        20 => {
            let g = G { utc: false, ..WIRE };
            let (t, v) = anydate(r, g);
            parses("date", &t, &Some(v))?;
            let (t, v) = datetime(r, g);
            parses("date-time", &t, &Some(v))?;
            let b = DateK::bad(r).unwrap();
            parses::<ikal::Date>("date", &b, &None)?;
            let b = DateTimeK::bad(r).unwrap();
            parses::<ikal::DateTime>("date-time", &b, &None)?;
            if r.chance(2) {
                parses("trigger", &t, &Some(ikal::Trigger::DateTime(v)))
            } else {
                let (t, d) = lit(r);
                parses("trigger", &t, &Some(ikal::Trigger::Duration(d)))
            }
        }
        _ => {
            // lists
            let n = *r.pick(&["CATEGORIES", "RESOURCES", "EXDATE"]);
            if n == "EXDATE" && r.chance(3) {
                let v: Vec<_> = (0..1 + r.some(3)).map(|_| anydate(r, WIRE).0).collect();
                let b = r.pick(&BADDATE).to_string();
                let (s, e) = event_with(L { name: n.into(), params: Params::new(), value: bad_list(r, v, b) });
                eq("EXDATE", &s, &e.is_ok(), &false)
            } else if n == "EXDATE" {
                let v: Vec<_> = (0..1 + r.some(5)).map(|_| anydate(r, WIRE)).collect();
                let (s, e) = event_with(L { name: n.into(), params: Params::new(), value: v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(",") });
                let w: Vec<ikal::Date> = v.into_iter().map(|x| x.1).collect();
                eq("EXDATE", &s, &e.map(|e| e.exdate), &Ok(w))
            } else {
                let v: Vec<_> = (0..1 + r.some(5)).map(|_| ItemK::wire(r)).collect();
                let p = params(r, WIRE);
                let (s, e) = event_with(L { name: n.into(), params: p.clone(), value: v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",") });
                let w: Vec<ikal::Text> = v.into_iter().map(|x| ItemK::with_params(x.2, &p)).collect();
                eq(n, &s, &e.map(|e| if n == "CATEGORIES" { e.categories } else { e.resources }), &Ok(w))
            }
        }
    }
}

// ------------------------------------------------------------------ C07

/// a duration literal of the builder macros
fn lit(r: &mut Rng) -> (String, TimeDelta) {
    let neg = r.chance(3);
    let mut s = String::from(if neg { "-P" } else { "P" });
    let mut t = 0i64;
    for (u, k) in [('Y', 365 * 86400i64), ('M', 30 * 86400), ('D', 86400)] {
        if r.chance(3) {
            let n = r.range(0, 400);
            s.push_str(&format!("{n}{u}"));
            t += n * k;
        }
    }
    if r.chance(2) {
        s.push('T');
        for (u, k) in [('H', 3600i64), ('M', 60), ('S', 1)] {
            if r.chance(2) {
                let n = r.range(0, 100000);
                s.push_str(&format!("{n}{u}"));
                t += n * k;
            }
        }
    }
    (s, TimeDelta::seconds(if neg { -t } else { t }))
}
const MAXSEC: i128 = (i64::MAX / 1000) as i128;
/// parts [(count text, unit seconds)]: the sum, if every part and the total fit
fn total_secs(parts: &[(String, i128)]) -> Option<i64> {
    let mut t = 0i128;
    for (n, k) in parts {
        let n: i128 = n.parse::<i64>().ok()? as i128;
        if n * k > MAXSEC {
            return None;
        }
        t += n * k;
    }
    if t > MAXSEC {
        None
    } else {
        Some(t as i64)
    }
}
fn num(r: &mut Rng, k: i128) -> String {
    match r.below(8) {
        0 => r.range(0, 9).to_string(),
        1 => (MAXSEC / k - r.below(3) as i128).to_string(),
        2 => (MAXSEC / k + 1 + r.below(3) as i128).to_string(),
        3 => r.pick(&["9223372036854775807", "9223372036854775808", "99999999999999999999", "00007", "0"]).to_string(),
        4 => (MAXSEC / k / 2).to_string(),
        _ => r.range(0, 100000).to_string(),
    }
}
fn c07(r: &mut Rng) -> R {
    // DURATION
    let neg = r.chance(3);
    let mut s = String::from(if neg { "-P" } else { "P" });
    let mut parts = vec![];
    for (u, k) in [("W", 604800i128), ("D", 86400)] {
        if r.chance(3) {
            let n = num(r, k);
            s.push_str(&n);
            s.push_str(u);
            parts.push((n, k));
        }
    }
    if r.chance(2) {
        s.push('T');
        for (u, k) in [("H", 3600i128), ("M", 60), ("S", 1)] {
            if r.chance(3) {
                let n = num(r, k);
                s.push_str(&n);
                s.push_str(u);
                parts.push((n, k));
            }
        }
    }
    let mut want = total_secs(&parts).map(|t| TimeDelta::seconds(if neg { -t } else { t }));
    let mut t = s.clone();
    note(&t);
    if r.chance(4) {
        t = r.pick(&["", "1D", "P1", "P1X", "PD", "P1DX", "P1D ", "P1H", "PT1D", "PT1W", "+P1D", "--P1D", "P-1D", "P1S", "p1d", "PT1", "P1W1", "P1D1W", "PT1S1M", "PT1M1H", "P1Y", "P1M"]).to_string();
        want = None;
    }
    let line = block("VFREEBUSY", &format!("UID:u\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:20240101T000000/{t}\r\n"));
    if t.starts_with('P') {
        let w = want.map(|d| {
            let mut f = ikal::VFreebusy::default();
            f.uid = act("u");
            f.dtstamp = ikal::DateTime::Naive(NaiveDate::from_ymd_opt(2024, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap());
            f.freebusy = vec![ikal::Period::StartDur(ikal::period::StartDur { start: f.dtstamp, duration: d })];
            f
        });
        parses("duration of a period", &line, &w)?;
    }
    let (e, v) = event_with(L { name: "DURATION".into(), params: Params::new(), value: t.clone() });
    eq("DURATION", &e, &v.map(|v| v.duration).ok(), &want.map(Some))?;
    let a = block("VALARM", &format!("ACTION:AUDIO\r\nTRIGGER:{t}\r\n"));
    let w = want.map(|d| {
        let mut a = ikal::valarm::Audio::default();
        a.action = act("AUDIO");
        a.trigger = ikal::Trigger::Duration(d);
        ikal::VAlarm::Audio(a)
    });
    parses("TRIGGER", &a, &w)?;
    // literals
    let (t, w) = lit(r);
    note(&t);
    eq("duration literal", &t, &ikal::parse_duration(&t).ok(), &Some(w))?;
    parses("TRIGGER literal", &t, &Some(ikal::Trigger::Duration(w)))?;
    let mut parts = vec![];
    let neg = r.chance(3);
    let mut t = String::from(if neg { "-P" } else { "P" });
    for (u, k) in [("Y", 31536000i128), ("M", 2592000), ("D", 86400), ("T", 0), ("H", 3600), ("M", 60), ("S", 1)] {
        if u == "T" {
            t.push('T');
        } else if r.chance(4) {
            let n = num(r, k);
            t.push_str(&n);
            t.push_str(u);
            parts.push((n, k));
        }
    }
    note(&t);
    let want = total_secs(&parts).map(|t| TimeDelta::seconds(if neg { -t } else { t }));
    eq("duration literal", &t, &ikal::parse_duration(&t).ok(), &want)?;
    if let Some(i) = t.find('T') {
        // a number without a unit
        let t = format!("{}{}{}", &t[..i], r.below(100), &t[i..]);
        note(&t);
        eq("duration literal", &t, &ikal::parse_duration(&t).ok(), &None)?;
    }
    let b = *r.pick(&["", "1D", "D", "P1", "P5T3H", "P12T", "P1D2T3M", "P1X", "PD", "P1H", "PT1D", "PT1Y", "+P1D", "--P1D", "P1S", "p1d", "P1DT5", "P 1D", "PTS", "-", "P-1D", "P1.5D", "P1W", "é", "P１D"]);
    note(b);
    eq("duration literal", &b, &ikal::parse_duration(b).ok(), &None)
}

// ------------------------------------------------------------------ C08

fn c08(r: &mut Rng) -> R {
    let mut j = ikal::VJournal::default();
    let n = format!("X-{}", name(r));
    let w = *r.pick(&[1usize, 2, 3, 4]);
    let ch = [['a', 'b'], ['é', 'ß'], ['日', '本'], ['🎉', '🎈']][w - 1];
    let len = match r.below(3) {
        0 => r.below(400),
        1 => (*r.pick(&[75usize, 76, 74, 150, 151, 149, 225, 226]) + r.below(5)).saturating_sub(n.len() + 1) / w,
        _ => 60 + r.below(30),
    };
    let v: String = if r.chance(3) { text(r, true, 1) } else { (0..len.max(1)).map(|_| if r.chance(9) { *r.pick(&['x', 'é', '日', '🎉', ' ', ';', '\n', '\t']) } else { *r.pick(&ch) }).collect() };
    let p = params(r, ANY);
    j.x_prop.insert(n.clone(), v.as_str().into());
    j.x_prop.get_mut(&n).unwrap().params = p.clone();
    j.x_prop.get_mut(&n).unwrap().key = n.clone();
    if r.chance(3) {
        j.comment = vec![act(&text(r, true, 1))];
    }
    let out = write(&j)?;
    // physical lines
    let rest = out.strip_suffix("\r\n").ok_or(format!("no closing CRLF\ninput: {j:?}\noutput: {out:?}"))?;
    let mut logical: Vec<Vec<&str>> = vec![];
    for l in rest.split("\r\n") {
        if let Some(x) = l.strip_prefix(' ') {
            match logical.last_mut() {
                Some(v) => v.push(x),
                None => return Err(format!("output starts with a fold: {out:?}")),
            }
        } else {
            logical.push(vec![l]);
        }
    }
    for pieces in &logical {
        let whole = pieces.concat();
        let e = |m: &str| Err(format!("{m}\ninput:    {whole:?}\nobserved: {pieces:?}"));
        if pieces.iter().any(|p| p.is_empty()) {
            return e("an empty piece");
        }
        if pieces.iter().any(|p| p.len() > 75) {
            return e("a piece of more than 75 octets");
        }
        if whole.len() <= 75 && pieces.len() > 1 {
            return e("a short line is folded");
        }
    }
    let want = line(&n, if p.is_empty() { None } else { Some(params_text(&p)) }, &esc(&v));
    let got: Vec<String> = logical.iter().map(|p| p.concat()).filter(|l| l.starts_with(&n)).collect();
    eq("unfolded line", &v, &got, &if esc(&v).is_empty() { vec![] } else { vec![want] })
}

// ------------------------------------------------------------------ C09 C10 C11

fn tree_of<T: Serialize + Debug>(v: &T, want: &Tree) -> R {
    let out = write(v)?;
    let got = Tree::read(&unfold(&out)).map_err(|e| format!("{e}\ninput:    {v:?}\nobserved: {out:?}"))?;
    if got.same(want) {
        Ok(())
    } else {
        Err(format!("serialised component differs\ninput:    {v:?}\nobserved: {:?}\nexpected: {:?}", got.text(), want.text()))
    }
}
fn write_case<C: Comp>(r: &mut Rng) -> R {
    let g = if r.chance(2) { ANY } else { TRIP };
    let v = C::val(r, g);
    let w = v.tree();
    tree_of(&v, &w)
}
fn c09(r: &mut Rng) -> R {
    let mut e = ikal::VEvent::default();
    let t = text(r, true, 1);
    let p = params(r, ANY);
    let mut want = ikal::VEvent::default().tree();
    let tx = ikal::Text { params: p.clone(), text: t.clone() };
    let a = if p.is_empty() { None } else { Some(params_text(&p)) };
    let n = match r.below(8) {
        0 => {
            e.summary = Some(tx);
            "SUMMARY"
        }
        1 => {
            e.comment = vec![tx];
            "COMMENT"
        }
        2 => {
            e.url = Some(ikal::Uri { params: p.clone(), uri: t.clone() });
            "URL"
        }
        3 => {
            e.x_prop.insert("X-Q".into(), t.as_str().into());
            e.x_prop.get_mut("X-Q").unwrap().params = p.clone();
            "X-Q"
        }
        4 => {
            e.categories = vec![tx];
            "CATEGORIES"
        }
        5 => {
            let c = ikal::Class::Custom(t.clone());
            e.class = Some(c);
            let v = esc(&t.to_uppercase());
            if !v.is_empty() {
                want.lines.push(format!("CLASS:{v}"));
            }
            return tree_of(&e, &want);
        }
        6 => {
            let d = text(r, true, 0);
            e.rstatus = vec![ikal::RequestStatus { statcode: 2.0, statdesc: t.clone(), extdata: Some(d.clone()) }];
            want.lines.push(format!("RSTATUS:2.0;{};{}", esc(&t), esc(&d)));
            return tree_of(&e, &want);
        }
        _ => {
            e.iana_prop.insert("QQ".into(), t.as_str().into());
            e.iana_prop.get_mut("QQ").unwrap().params = p.clone();
            "QQ"
        }
    };
    if !esc(&t).is_empty() {
        want.lines.push(line(n, a, &esc(&t)));
    }
    tree_of(&e, &want)?;
    eq("a String serialised", &t, &write(&t)?, &esc(&t))?;
    // parameters read back
    if !p.is_empty() {
        let back: ikal::VJournal = {
            let mut j = ikal::VJournal::default();
            j.uid = act("u");
            j.x_prop.insert("X-P".into(), "v".into());
            j.x_prop.get_mut("X-P").unwrap().params = p.clone();
            let s = write(&j)?;
            parse(&s).map_err(|e| format!("parameters do not read back\ninput: {s:?}\nerror: {e:?}"))?
        };
        eq("parameters read back", &p, &back.x_prop.get("X-P").map(|x| x.params.clone()), &Some(p.clone()))?;
    }
    // hostile parameter text cannot break the line either
    let mut q = Params::new();
    q.insert("A".into(), text(r, true, 0));
    let mut j = ikal::VJournal::default();
    j.x_prop.insert("X-P".into(), "v".into());
    j.x_prop.get_mut("X-P").unwrap().params = q.clone();
    let s = write(&j)?;
    let t = Tree::read(&unfold(&s)).map_err(|e| format!("{e}\ninput: {q:?}\nobserved: {s:?}"))?;
    let mine: Vec<&String> = t.lines.iter().filter(|l| l.starts_with("X-P;A=") && l.ends_with(":v")).collect();
    if mine.len() != 1 || t.lines.len() != ikal::VJournal::default().tree().lines.len() + 1 || t.lines.iter().any(|l| l.contains(['\r', '\n'])) {
        return Err(format!("parameter text breaks the output\ninput: {q:?}\nobserved: {s:?}"));
    }
    Ok(())
}
fn c10(r: &mut Rng) -> R {
    match r.below(12) {
        0 | 1 => write_case::<ikal::VEvent>(r),
        2 => write_case::<ikal::VTodo>(r),
        3 => write_case::<ikal::VJournal>(r),
        4 => write_case::<ikal::VFreebusy>(r),
        5 => write_case::<ikal::VTimezone>(r),
        6 => write_case::<ikal::vtimezone::Standard>(r),
        7 => write_case::<ikal::vtimezone::Daylight>(r),
        8 => write_case::<ikal::VCalendar>(r),
        9 => write_case::<ikal::valarm::Audio>(r),
        10 => write_case::<ikal::valarm::Display>(r),
        _ => write_case::<ikal::valarm::Email>(r),
    }
}
fn trip<T: Serialize + Debug + FromStr<Err = ikal::Error> + PartialEq + Clone>(v: T) -> R {
    let s = write(&v)?;
    match parse::<T>(&s) {
        Ok(g) if g == v => Ok(()),
        Ok(g) => Err(format!("what is read back differs\ninput:    {v:?}\nwritten:  {s:?}\nobserved: {g:?}")),
        Err(e) => Err(format!("what is written does not read back\ninput:    {v:?}\nwritten:  {s:?}\nobserved: error {e:?}")),
    }
}
fn c11(r: &mut Rng) -> R {
    match r.below(13) {
        0 | 1 => trip(ikal::VEvent::val(r, TRIP)),
        2 => trip(ikal::VTodo::val(r, TRIP)),
        3 => trip(ikal::VJournal::val(r, TRIP)),
        4 => trip(ikal::VFreebusy::val(r, TRIP)),
        5 => trip(ikal::VTimezone::val(r, TRIP)),
        6 => trip(ikal::vtimezone::Standard::val(r, TRIP)),
        7 => trip(ikal::vtimezone::Daylight::val(r, TRIP)),
        8 => trip(ikal::VCalendar::val(r, TRIP)),
        9 => trip(alarm(r, TRIP)),
        10 => trip(ikal::valarm::Display::val(r, TRIP)),
        11 => trip(recur(r, TRIP)),
        _ => {
            trip(period(r, TRIP).1)?;
            trip(RstatusK::val(r, TRIP))?;
            trip(datetime(r, TRIP).1)?;
            trip(ikal::WeekdayNum { weekday: r.pick(&DAYS).1.clone(), ord: if r.chance(2) { Some(r.range(-128, 127) as i8) } else { None } })
        }
    }
}

// ------------------------------------------------------------------ C12

fn rule(freq: ikal::Freq, interval: u8) -> ikal::Recur {
    ikal::Recur { freq, interval, ..Default::default() }
}
fn step_naive(f: &ikal::Freq, k: i64, d: NaiveDateTime) -> NaiveDateTime {
    let secs = match f {
        ikal::Freq::Secondly => 1,
        ikal::Freq::Minutely => 60,
        ikal::Freq::Hourly => 3600,
        ikal::Freq::Daily => 86400,
        ikal::Freq::Weekly => 604800,
        ikal::Freq::Monthly => return add_months(d.date(), k).and_time(d.time()),
        ikal::Freq::Yearly => return add_months(d.date(), 12 * k).and_time(d.time()),
    };
    d + TimeDelta::seconds(secs * k)
}
fn calendar(f: &ikal::Freq) -> bool {
    matches!(f, ikal::Freq::Monthly | ikal::Freq::Yearly)
}
fn step_local(f: &ikal::Freq, k: i64, d: chrono::DateTime<chrono::Local>) -> chrono::DateTime<chrono::Local> {
    if calendar(f) {
        let n = step_naive(f, k, d.naive_local());
        match chrono::Local.from_local_datetime(&n).earliest() {
            Some(x) => x,
            None => chrono::Local.from_utc_datetime(&(n - TimeDelta::seconds(d.offset().local_minus_utc() as i64))),
        }
    } else {
        chrono::Local.from_utc_datetime(&step_naive(f, k, d.naive_utc()))
    }
}
fn step_date(f: &ikal::Freq, k: i64, d: ikal::Date) -> ikal::Date {
    match d {
        ikal::Date::Date(x) => {
            if *f >= ikal::Freq::Daily {
                ikal::Date::Date(step_naive(f, k, x.and_time(NaiveTime::MIN)).date())
            } else {
                ikal::Date::DateTime(ikal::DateTime::Naive(step_naive(f, k, x.and_time(NaiveTime::MIN))))
            }
        }
        ikal::Date::DateTime(ikal::DateTime::Naive(x)) => ikal::Date::DateTime(ikal::DateTime::Naive(step_naive(f, k, x))),
        ikal::Date::DateTime(ikal::DateTime::Local(x)) => ikal::Date::DateTime(ikal::DateTime::Local(step_local(f, k, x))),
    }
}
fn some_date(r: &mut Rng) -> ikal::Date {
    match r.below(3) {
        0 => ikal::Date::Date(date(r)),
        1 => ikal::Date::DateTime(ikal::DateTime::Naive(naive(r))),
        _ => ikal::Date::DateTime(ikal::DateTime::Local(some_local(r))),
    }
}
// years 1 to 9998, so that the local clock stays within 0 to 9999
fn some_local(r: &mut Rng) -> chrono::DateTime<chrono::Local> {
    let mut n = naive(r);
    if n.year() == 0 || n.year() == 9999 {
        n = n.with_day(28).unwrap().with_year(2024).unwrap();
    }
    if r.chance(3) {
        // around clock changes
        let y = r.range(1995, 2030) as i32;
        let (m, h) = *r.pick(&[(3u32, 0u32), (3, 1), (10, 0), (10, 1), (1, 1), (2, 1), (9, 1)]);
        n = NaiveDate::from_ymd_opt(y, m, r.range(22, 28) as u32).unwrap().and_hms_opt(h + r.below(3) as u32, 30, 0).unwrap();
    }
    local_of_utc(n)
}
fn c12(r: &mut Rng) -> R {
    let f = r.pick(&FREQS).1.clone();
    let k = if r.chance(2) { *r.pick(&[0u8, 1, 2, 4, 12, 255]) } else { r.below(256) as u8 };
    let mut rr = recur(r, TRIP);
    rr.freq = f.clone();
    rr.interval = k;
    let d = some_date(r);
    note(&format!("{f:?} x {k} + {d:?}"));
    eq("one step", &(&f, k, d), &(rr.clone() + d), &step_date(&f, k as i64, d))?;
    let n = date(r);
    note(&format!("{f:?} x {k} + {n:?}"));
    let w = if f >= ikal::Freq::Daily { step_naive(&f, k as i64, n.and_time(NaiveTime::MIN)).date() } else { n };
    eq("one step of a calendar day", &(&f, k, n), &(rr.clone() + n), &w)?;
    let n = naive(r);
    eq("one step of a clock time", &(&f, k, n), &(rr.clone() + n), &step_naive(&f, k as i64, n))?;
    let l = some_local(r);
    note(&format!("{f:?} x {k} + {l:?}"));
    let got = rr.clone() + l;
    let want = step_local(&f, k as i64, l);
    eq("one step of a local time", &(&f, k, l), &(got, got.naive_local()), &(want, want.naive_local()))?;
    eq("one step of a local date-time", &(&f, k, l), &(rr + ikal::DateTime::Local(l)), &ikal::DateTime::Local(want))
}

// ------------------------------------------------------------------ C13 C14

fn day(d: &ikal::Date) -> NaiveDate {
    match d {
        ikal::Date::Date(d) => *d,
        ikal::Date::DateTime(ikal::DateTime::Naive(n)) => n.date(),
        ikal::Date::DateTime(ikal::DateTime::Local(l)) => l.naive_local().date(),
    }
}
/// permitted occurrences: (start, number of steps, remaining count)
fn occurrences(d: ikal::Date, rr: &ikal::Recur, ex: &[ikal::Date], max: usize) -> (Vec<(ikal::Date, usize)>, bool) {
    let mut v = vec![];
    let mut d = d;
    for k in 0..4000 {
        if rr.count.map_or(false, |c| k >= c as usize) || rr.until.as_ref().map_or(false, |u| day(&d) > day(u)) {
            return (v, true);
        }
        if !ex.contains(&d) {
            v.push((d, k));
            if v.len() == max {
                return (v, false);
            }
        }
        d = step_date(&rr.freq, rr.interval as i64, d);
    }
    (v, false)
}
fn near(r: &mut Rng, d: ikal::Date, rr: &ikal::Recur) -> ikal::Date {
    let mut x = d;
    for _ in 0..r.below(12) {
        x = step_date(&rr.freq, rr.interval as i64, x);
    }
    match r.below(6) {
        0 => ikal::Date::Date(day(&x)),
        1 => ikal::Date::DateTime(ikal::DateTime::Naive(day(&x).and_hms_opt(12, 0, 0).unwrap())),
        2 => some_date(r),
        _ => x,
    }
}
fn mid_date(r: &mut Rng) -> ikal::Date {
    loop {
        let d = some_date(r);
        if day(&d).year() < 9000 {
            return d;
        }
    }
}
fn rec_case(r: &mut Rng) -> (ikal::Date, ikal::Recur, Vec<ikal::Date>) {
    let d = mid_date(r);
    let mut rr = rule(r.pick(&FREQS).1.clone(), *r.pick(&[1u8, 1, 1, 2, 3, 7, 12, 255]));
    if r.chance(2) {
        rr.until = Some(near(r, d, &rr));
    }
    if r.chance(2) {
        rr.count = Some(*r.pick(&[0u8, 1, 2, 5, 9, 255]));
    }
    if r.chance(4) {
        rr.by_day = recur(r, TRIP).by_day;
    }
    let mut ex = vec![];
    for _ in 0..if r.chance(2) { r.some(8) } else { 0 } {
        ex.push(near(r, d, &rr));
    }
    (d, rr, ex)
}
macro_rules! rec {
    ($r:ident, $t:ty, $set:expr, $starts:expr, $ends:expr, $setend:expr) => {{
        let (d, rr, ex) = rec_case($r);
        let mut c: $t = Comp::val($r, TRIP);
        let set: fn(&mut $t, Option<ikal::Date>) = $set;
        let setend: fn(&mut $t, Option<ikal::Date>) = $setend;
        set(&mut c, Some(d));
        let end = if $r.chance(2) { Some(mid_date($r)) } else { None };
        setend(&mut c, end);
        c.exdate = ex.clone();
        c.rrule = if $r.chance(12) { None } else { Some(rr.clone()) };
        let (want, all) = if c.rrule.is_none() { (vec![], true) } else { occurrences(d, &rr, &ex, 15) };
        note(&format!("{c:?}"));
        let mut it = c.recurrent();
        let what = format!("start {d:?} end {end:?} rule {:?} exdate {ex:?}", c.rrule);
        for (i, (s, k)) in want.iter().enumerate() {
            let mut w = c.clone();
            set(&mut w, Some(*s));
            let mut e = end;
            for _ in 0..*k { e = e.map(|e| step_date(&rr.freq, rr.interval as i64, e)); }
            setend(&mut w, e);
            if let Some(x) = w.rrule.as_mut() { x.count = rr.count.map(|c| c - *k as u8); }
            let g = it.next();
            if g.as_ref() != Some(&w) {
                return Err(format!("occurrence {i} differs\ninput:    {what}\nobserved: {g:?}\nexpected: {w:?}"));
            }
        }
        if all {
            if let Some(g) = it.next() {
                return Err(format!("an occurrence beyond the last\ninput:    {what}\nobserved: {g:?}"));
            }
        }
        Ok(())
    }};
}
fn c13(r: &mut Rng) -> R {
    match r.below(4) {
        0 | 1 => rec!(r, ikal::VEvent, |c, d| c.dtstart = d.unwrap(), 0, 0, |c, e| c.dtend = e),
        2 => {
            if r.chance(8) {
                let mut t: ikal::VTodo = Comp::val(r, TRIP);
                t.dtstart = None;
                t.rrule = Some(rule(ikal::Freq::Daily, 1));
                note(&format!("{t:?}"));
                return eq("a to-do without start", &t, &t.recurrent().next(), &None);
            }
            rec!(r, ikal::VTodo, |c, d| c.dtstart = d, 0, 0, |c, e| c.due = e)
        }
        _ => rec!(r, ikal::VJournal, |c, d| c.dtstart = d.unwrap(), 0, 0, |_, _| ()),
    }
}
fn before(a: &ikal::Date, b: &ikal::Date) -> bool {
    order(a, b) == Ordering::Less
}
fn clock(d: &ikal::DateTime) -> NaiveDateTime {
    match d {
        ikal::DateTime::Naive(n) => *n,
        ikal::DateTime::Local(l) => l.naive_local(),
    }
}
fn order(a: &ikal::Date, b: &ikal::Date) -> Ordering {
    match (a, b) {
        (ikal::Date::DateTime(a), ikal::Date::DateTime(b)) => clock(a).cmp(&clock(b)),
        _ => day(a).cmp(&day(b)),
    }
}
fn shift(d: ikal::Date, t: TimeDelta) -> ikal::Date {
    match d {
        ikal::Date::Date(d) => ikal::Date::Date(d + TimeDelta::days(t.num_days())),
        ikal::Date::DateTime(ikal::DateTime::Naive(n)) => ikal::Date::DateTime(ikal::DateTime::Naive(n + t)),
        ikal::Date::DateTime(ikal::DateTime::Local(l)) => ikal::Date::DateTime(ikal::DateTime::Local(chrono::Local.from_utc_datetime(&(l.naive_utc() + t)))),
    }
}
fn c14(r: &mut Rng) -> R {
    let (mut d, mut rr, mut ex) = rec_case(r);
    if matches!(d, ikal::Date::DateTime(ikal::DateTime::Local(_))) {
        // wall clocks may run backwards at a clock change
        d = ikal::Date::DateTime(ikal::DateTime::Naive(naive(r)));
        if day(&d).year() > 9000 {
            return Ok(());
        }
    }
    if matches!(d, ikal::Date::Date(_)) && rr.freq < ikal::Freq::Daily {
        rr.freq = ikal::Freq::Daily;
    }
    ex.truncate(3);
    // at least one bound that ends the reference enumeration
    let (a, b) = (near(r, d, &rr), near(r, d, &rr));
    let mut e = ikal::VEvent::default();
    e.dtstart = d;
    e.rrule = Some(rr.clone());
    e.exdate = ex.clone();
    let (all, done) = occurrences(d, &rr, &ex, 600);
    let what = format!("{:?} window {a:?} .. {b:?}", (d, &rr, &ex));
    note(&what);
    let inside = |a: &ikal::Date, b: &ikal::Date| -> Option<Vec<ikal::Date>> {
        let s: Vec<ikal::Date> = all.iter().map(|x| x.0).collect();
        let from = s.iter().position(|x| !before(x, a));
        match from {
            None => if done { Some(vec![]) } else { None },
            Some(i) => match s[i..].iter().position(|x| !before(x, b)) {
                Some(j) => Some(s[i..i + j].to_vec()),
                None => if done { Some(s[i..].to_vec()) } else { None },
            },
        }
    };
    if let Some(w) = inside(&a, &b) {
        let g: Vec<ikal::Date> = e.recurrent().between(a, b).take(w.len() + 3).map(|x| x.dtstart).collect();
        eq("between", &what, &g, &w)?;
        let mut it = e.recurrent().between(a, b);
        for _ in 0..w.len() {
            it.next();
        }
        eq("after the last of a window", &what, &it.next().map(|x| x.dtstart), &None)?;
    }
    let b1 = shift(a, TimeDelta::days(1));
    if let Some(w) = inside(&a, &b1) {
        let g: Vec<ikal::Date> = e.recurrent().at(a).take(w.len() + 3).map(|x| x.dtstart).collect();
        eq("at", &what, &g, &w)?;
    }
    let s: Vec<ikal::Date> = all.iter().map(|x| x.0).collect();
    let w: Vec<ikal::Date> = s.iter().cloned().skip_while(|x| before(x, &a)).collect();
    if done || w.len() > 10 {
        let n = if done { w.len() } else { 10 };
        let mut it = e.recurrent().after(a);
        let g: Vec<ikal::Date> = it.by_ref().take(n).map(|x| x.dtstart).collect();
        eq("after", &what, &g, &w[..n].to_vec())?;
        if done {
            eq("after the last", &what, &it.next().map(|x| x.dtstart), &None)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

fn alike(r: &mut Rng, d: &ikal::Date) -> ikal::Date {
    match r.below(5) {
        0 => *d,
        1 => ikal::Date::Date(day(d)),
        2 => ikal::Date::DateTime(ikal::DateTime::Naive(day(d).and_hms_opt(r.below(24) as u32, 0, 0).unwrap())),
        3 => match d {
            ikal::Date::DateTime(x) => ikal::Date::DateTime(ikal::DateTime::Naive(clock(x))),
            x => *x,
        },
        _ => some_date(r),
    }
}
fn c15(r: &mut Rng) -> R {
    let a = some_date(r);
    let b = alike(r, &a);
    eq("order", &(a, b), &a.cmp(&b), &order(&a, &b))?;
    eq("partial order", &(a, b), &a.partial_cmp(&b), &Some(order(&a, &b)))?;
    eq("reversed order", &(b, a), &b.cmp(&a), &order(&a, &b).reverse())?;
    eq("operators", &(a, b), &(a < b, a <= b, a > b, a >= b), &{
        let o = order(&a, &b);
        (o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less)
    })?;
    eq("day", &a, &(a.date_naive(), NaiveDate::from(a), a.has_time()), &(day(&a), day(&a), matches!(a, ikal::Date::DateTime(_))))?;
    let t = match r.below(4) {
        0 => TimeDelta::days(r.range(-400, 400)),
        1 => TimeDelta::seconds(r.range(-200000, 200000)),
        2 => TimeDelta::zero(),
        _ => TimeDelta::milliseconds(r.range(-2000000000, 2000000000)),
    };
    note(&format!("{a:?} + {t:?}"));
    eq("shift", &(a, t), &(a + t), &shift(a, t))?;
    let (x, y) = (to_dt(&a), to_dt(&b));
    eq("date-time order", &(x, y), &(x.cmp(&y), x.partial_cmp(&y)), &(clock(&x).cmp(&clock(&y)), Some(clock(&x).cmp(&clock(&y)))))?;
    eq("date-time shift", &(x, t), &ikal::Date::DateTime(x + t), &shift(ikal::Date::DateTime(x), t))?;
    eq("difference", &(x, y), &(x - y), &(clock(&x) - clock(&y)))?;
    eq("subtracting a span", &(x, t), &(x - t), &(clock(&x) - t))?;
    eq("conversion to date-time", &a, &ikal::DateTime::from(a), &x)?;
    eq("parts of a date-time", &x, &(x.naive(), x.date_naive(), NaiveDateTime::from(x)), &(clock(&x), clock(&x).date(), clock(&x)))?;
    eq("date from date-time", &x, &ikal::Date::from(x), &ikal::Date::DateTime(x))?;
    let n = naive(r);
    eq("from clock time", &n, &(ikal::DateTime::from(n), ikal::Date::from(n), ikal::Date::from(n.date())), &(ikal::DateTime::Naive(n), ikal::Date::DateTime(ikal::DateTime::Naive(n)), ikal::Date::Date(n.date())))?;
    let l = some_local(r);
    eq("from local time", &l, &(ikal::DateTime::from(l), ikal::Date::from(l)), &(ikal::DateTime::Local(l), ikal::Date::DateTime(ikal::DateTime::Local(l))))?;
    // periods compare by length
    let (p, q) = (period(r, ANY).1, period(r, ANY).1);
    let len = |p: &ikal::Period| match p {
        ikal::Period::StartEnd(x) => clock(&x.end) - clock(&x.start),
        ikal::Period::StartDur(x) => x.duration,
    };
    eq("length of a period", &p, &p.duration(), &len(&p))?;
    let _ = q;
    Ok(())
}
fn to_dt(d: &ikal::Date) -> ikal::DateTime {
    match d {
        ikal::Date::Date(d) => ikal::DateTime::Naive(d.and_time(NaiveTime::MIN)),
        ikal::Date::DateTime(d) => *d,
    }
}

// ------------------------------------------------------------------ C16

fn c16(r: &mut Rng) -> R {
    // all of them, a slice at a time
    let from = -86399 + 2000 * r.below(87) as i32;
    for o in from..(from + 2000).min(86400) {
        let f = chrono::FixedOffset::east_opt(o).unwrap();
        let s = write(&f)?;
        let b = s.as_bytes();
        let ok = (b.len() == 5 || b.len() == 7) && (b[0] == b'+' || b[0] == b'-') && b[1..].iter().all(u8::is_ascii_digit);
        let two = |i: usize| (b[i] - b'0') as i32 * 10 + (b[i + 1] - b'0') as i32;
        if !ok {
            return Err(format!("shape of an offset\ninput:    {o}\nobserved: {s:?}"));
        }
        let (h, m, c) = (two(1), two(3), if b.len() == 7 { two(5) } else { 0 });
        let v = (h * 3600 + m * 60 + c) * if b[0] == b'-' { -1 } else { 1 };
        if v != o || m > 59 || c > 59 || (b[0] == b'-') != (o < 0) || (b.len() == 7) != (o % 60 != 0) {
            return Err(format!("value of an offset\ninput:    {o}\nobserved: {s:?}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17

fn c17(r: &mut Rng) -> R {
    let v = recur(r, WIRE);
    let mut items: Vec<String> = recur_ser(&v).split(';').map(|x| x.to_string()).collect();
    let mut want = v.clone();
    // UNTIL is written from the same text it is read from
    let (ut, uv) = anydate(r, WIRE);
    if want.until.is_some() {
        want.until = Some(uv);
        for i in items.iter_mut().filter(|x| x.starts_with("UNTIL=")) {
            *i = format!("UNTIL={ut}");
        }
    }
    if r.chance(3) {
        items.retain(|x| !x.starts_with("INTERVAL="));
        want.interval = 1;
    }
    for i in (1..items.len()).rev() {
        let j = r.below(i + 1);
        items.swap(i, j);
    }
    if r.chance(4) {
        let at = r.below(items.len() + 1);
        items.insert(at, r.pick(&["X-FOO=1", "BYEASTER=2", "count=7", "COUNTS=9", "FREQ2=x", "BY=1", "X="]).to_string());
    }
    let mut t = items.join(";");
    if r.chance(6) {
        t.push(';');
    }
    let mut w = Some(want);
    if r.chance(3) {
        let bad = r.pick(&["COUNT=x", "COUNT=256", "COUNT=-1", "COUNT=", "INTERVAL=256", "INTERVAL=x", "BYHOUR=128", "BYHOUR=1,", "BYHOUR=x", "BYHOUR=", "BYDAY=XX", "BYDAY=MO,", "BYDAY=MOX", "BYDAY=M", "BYDAY=200MO", "WKST=X", "WKST=MOO", "UNTIL=x", "UNTIL=2024", "UNTIL=20240230", "BYMONTH=-129", "BYSETPOS=1.5", "BYSECOND=1;;BYMINUTE=1", "NOEQUALS", "FREQ=daily", "FREQ=", "BYWEEKNO=1 ", "BYYEARDAY=999", "BYMONTHDAY=--1", "BYMINUTE=,1"]).to_string();
        let key: String = bad.chars().take_while(|c| *c != '=').collect();
        items.retain(|x| !x.starts_with(&format!("{key}=")));
        let at = r.below(items.len() + 1);
        items.insert(at, bad);
        t = items.join(";");
        w = None;
    } else if r.chance(10) {
        items.retain(|x| !x.starts_with("FREQ="));
        t = items.join(";");
        w = None;
    }
    parses("recurrence rule", &t, &w)?;
    eq("recurrence rule from String", &t, &ikal::Recur::try_from(t.clone()).ok(), &w)?;
    let (s, e) = event_with(L { name: "RRULE".into(), params: Params::new(), value: t });
    eq("RRULE", &s, &e.ok().map(|e| e.rrule.unwrap()), &w)?;
    let v = recur(r, ANY);
    eq("rule written", &v, &write(&v)?, &recur_ser(&v))?;
    let v = recur(r, TRIP);
    trip(v)?;
    let n = r.range(-128, 127) as i8;
    let wd = r.pick(&DAYS).clone();
    let x = ikal::WeekdayNum { weekday: wd.1.clone(), ord: Some(n) };
    parses("weekday number", &format!("{n}{}", wd.0), &Some(x.clone()))?;
    eq("weekday number written", &x, &x.to_string(), &format!("{n}{}", wd.0))
}

// ------------------------------------------------------------------ known findings

pub const KNOWN: &[(&str, &str, fn() -> bool)] = &[
    ("C11", "DTSTAMP:19970901T083000Z read in TZ=CET is written back as DTSTAMP:19970901T103000Z (the local clock followed by Z)", || {
        let s = "BEGIN:VJOURNAL\r\nDTSTAMP:19970901T083000Z\r\nUID:u\r\nDTSTART:20240101\r\nEND:VJOURNAL\r\n";
        match s.parse::<ikal::VJournal>() {
            Ok(v) => !ikal::ser::ical(&v).unwrap_or_default().contains("DTSTAMP:19970901T083000Z"),
            Err(_) => true,
        }
    }),
    ("C11", "SUMMARY text a,b is written as SUMMARY:a\\,b and read back as a\\,b (text is not unescaped on reading)", || {
        let mut e = ikal::VJournal::default();
        e.summary = Some("a,b".into());
        let s = ikal::ser::ical(&e).unwrap_or_default();
        s.parse::<ikal::VJournal>().ok().as_ref() != Some(&e)
    }),
    ("C11", "TZOFFSETTO:+001230 (seconds 30) is written for an offset of 750 seconds and read back as 720 seconds", || {
        let mut e = ikal::vtimezone::Standard::default();
        e.tzoffsetto = chrono::FixedOffset::east_opt(750).unwrap();
        let s = ikal::ser::ical(&e).unwrap_or_default();
        s.parse::<ikal::vtimezone::Standard>().ok().as_ref() != Some(&e)
    }),
    ("C06", "\"19970901T083000Z\".parse::<ikal::DateTime>() in TZ=CET is 08:30 local time instead of 08:30 UTC", || {
        "19970901T083000Z".parse::<ikal::DateTime>().ok() != Some(ikal::DateTime::Local(local_of_utc(NaiveDate::from_ymd_opt(1997, 9, 1).unwrap().and_hms_opt(8, 30, 0).unwrap())))
    }),
    ("C17", "RRULE:FREQ=DAILY;COUNT=300 is rejected (COUNT is held in a u8)", || "FREQ=DAILY;COUNT=300".parse::<ikal::Recur>().is_err()),
    ("C17", "RRULE:FREQ=YEARLY;BYYEARDAY=200 is rejected (BYYEARDAY is held in an i8)", || "FREQ=YEARLY;BYYEARDAY=200".parse::<ikal::Recur>().is_err()),
];
