//! Independent reference: values generated together with their iCalendar text, and the way they
//! are written. Nothing here calls the code under test except to build its plain data types.
use crate::rng::Rng;
use chrono::{Datelike, NaiveDate, NaiveDateTime, TimeZone, Timelike};
use std::collections::BTreeMap;

pub type Params = BTreeMap<String, String>;

#[derive(Clone, Copy)]
pub struct G {
    /// text may hold ; , and line breaks (generated values, never parsed text)
    pub special: bool,
    /// UTC date-times may be generated
    pub utc: bool,
    /// generate for a text form: values that can be written in a content line
    pub wire: bool,
}

pub const WIRE: G = G { special: false, utc: true, wire: true };
pub const ANY: G = G { special: true, utc: true, wire: false };
pub const TRIP: G = G { special: false, utc: false, wire: false };

const ALPHA: &[char] = &[
    'a', 'b', 'z', 'A', 'Q', '0', '7', ' ', '.', ':', '"', '\\', '=', '/', '\'', '\t', 'é', 'ß', '日', '本', '🎉', '\u{0}', '\u{7f}', '\u{301}',
    '+', '-', '_', '(', 'n', 'N', 'T', 'Z', '%', '\u{a0}', '\u{2028}', '\u{feff}', '\u{85}', '\u{b}',
];

pub fn text(r: &mut Rng, special: bool, min: usize) -> String {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => r.below(8),
        5 | 6 => 40 + r.below(60),
        7 => r.below(40),
        8 => 70 + r.below(12),
        _ => 100 + r.below(300),
    }
    .max(min);
    let mono = r.chance(4);
    let one = *r.pick(ALPHA);
    let mut s = String::new();
    for _ in 0..n {
        if special && r.chance(8) {
            s.push_str(r.pick(&[";", ",", "\n", "\r\n", "\r", "\\,", "\\;", "\\n", "\r\n ", "\n\n", "\r\r\n", "\n\r"]));
        } else if mono {
            s.push(one);
        } else if r.pct(70) {
            s.push((b'a' + r.below(26) as u8) as char);
        } else {
            s.push(*r.pick(ALPHA));
        }
    }
    s
}
/// a text value as it can stand on the wire and come back unchanged
pub fn wire_text(r: &mut Rng) -> String {
    let mut s = text(r, false, 0);
    if r.chance(4) {
        s.push_str(r.pick(&[";x", ",y", "\\,", "\\n", ":", "BEGIN:VEVENT", "END:VEVENT", "\"q\""]));
    }
    s
}
pub fn name(r: &mut Rng) -> String {
    let n = 1 + r.below(8);
    (0..n).map(|_| *r.pick(&['A', 'B', 'X', 'Z', 'E', 'N', 'D', '0', '9', '-'])).collect()
}
pub fn params(r: &mut Rng, g: G) -> Params {
    let mut m = Params::new();
    if r.pct(60) {
        return m;
    }
    for _ in 0..1 + r.some(3) {
        let k = name(r);
        let mut v: String = text(r, g.special && !g.wire, 0).chars().filter(|c| *c != '"').take(if r.chance(6) { 90 } else { 14 }).collect();
        if r.chance(3) {
            v.push_str(r.pick(&[":", ";", ",", "mailto:a@b.c", "a,b", "x;y=z:w"]));
        }
        v = v.chars().filter(|c| *c != '\n' && *c != '\r').collect();
        m.insert(k, v);
    }
    m
}
pub fn param_text(v: &str) -> String {
    if v.contains(':') || v.contains(';') || v.contains(',') {
        format!("\"{v}\"")
    } else {
        v.to_string()
    }
}
pub fn params_text(p: &Params) -> String {
    p.iter().map(|(k, v)| format!("{k}={}", param_text(v))).collect::<Vec<_>>().join(";")
}
fn attr_of(p: &Params) -> Option<String> {
    if p.is_empty() {
        None
    } else {
        Some(params_text(p))
    }
}
pub fn esc(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            ';' => o.push_str("\\;"),
            ',' => o.push_str("\\,"),
            '\r' => {
                o.push_str("\\n");
                if i + 1 < c.len() && c[i + 1] == '\n' {
                    i += 1;
                }
            }
            '\n' => o.push_str("\\n"),
            x => o.push(x),
        }
        i += 1;
    }
    o
}

// ------------------------------------------------------------------ calendar arithmetic

pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_len(y: i64, m: i64) -> i64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize]
}
pub fn add_months(d: NaiveDate, n: i64) -> NaiveDate {
    let t = d.year() as i64 * 12 + d.month0() as i64 + n;
    let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1);
    NaiveDate::from_ymd_opt(y as i32, m as u32, (d.day() as i64).min(month_len(y, m)) as u32).unwrap()
}
pub fn date(r: &mut Rng) -> NaiveDate {
    match r.below(8) {
        0 => {
            let y = *r.pick(&[1600i32, 1900, 1999, 2000, 2004, 2023, 2024, 2100, 2400, 1, 0, 9999, 1970]);
            let (m, d) = *r.pick(&[(2u32, 28u32), (2, 29), (1, 31), (12, 31), (1, 1), (3, 31), (8, 31), (10, 31), (4, 30)]);
            NaiveDate::from_ymd_opt(y, m, d).unwrap_or(NaiveDate::from_ymd_opt(y, m, 28).unwrap())
        }
        _ => {
            let y = if r.chance(6) { r.range(0, 9990) } else { r.range(1950, 2090) };
            let m = r.range(1, 12);
            let d = r.range(1, month_len(y, m));
            NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap()
        }
    }
}
pub fn naive(r: &mut Rng) -> NaiveDateTime {
    let d = date(r);
    match r.below(4) {
        0 => d.and_hms_opt(0, 0, 0).unwrap(),
        1 => d.and_hms_opt(23, 59, 59).unwrap(),
        _ => d.and_hms_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32).unwrap(),
    }
}
pub fn naive_text(d: NaiveDateTime) -> String {
    format!("{:04}{:02}{:02}T{:02}{:02}{:02}", d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second())
}
pub fn date_text(d: NaiveDate) -> String {
    format!("{:04}{:02}{:02}", d.year(), d.month(), d.day())
}
pub fn local_of_utc(d: NaiveDateTime) -> chrono::DateTime<chrono::Local> {
    chrono::Utc.from_utc_datetime(&d).with_timezone(&chrono::Local)
}
pub fn datetime(r: &mut Rng, g: G) -> (String, ikal::DateTime) {
    let n = naive(r);
    if g.utc && r.chance(3) && n.year() > 0 && n.year() < 9999 {
        (format!("{}Z", naive_text(n)), ikal::DateTime::Local(local_of_utc(n)))
    } else {
        (naive_text(n), ikal::DateTime::Naive(n))
    }
}
pub fn datetime_ser(d: &ikal::DateTime) -> String {
    match d {
        ikal::DateTime::Naive(n) => naive_text(*n),
        // known finding: the local clock is written, followed by Z
        ikal::DateTime::Local(l) => format!("{}Z", naive_text(l.naive_local())),
    }
}
pub fn date_ser(d: &ikal::Date) -> String {
    match d {
        ikal::Date::Date(d) => date_text(*d),
        ikal::Date::DateTime(d) => datetime_ser(d),
    }
}
pub fn dur(r: &mut Rng) -> (String, chrono::TimeDelta) {
    let big = r.chance(5);
    let mut part = |r: &mut Rng, on: usize| -> Option<i64> {
        if r.pct(on) {
            Some(if big { r.range(0, 100_000) } else { r.range(0, 70) })
        } else {
            None
        }
    };
    let neg = r.chance(3);
    let (w, d) = (part(r, 30), part(r, 50));
    let t = r.pct(60);
    let (h, m, s) = if t { (part(r, 50), part(r, 50), part(r, 50)) } else { (None, None, None) };
    let mut x = String::new();
    if neg {
        x.push('-');
    }
    x.push('P');
    let mut total = 0i64;
    let mut put = |x: &mut String, v: Option<i64>, u: char, k: i64, r: &mut Rng| {
        if let Some(v) = v {
            if r.chance(6) {
                x.push('0');
            }
            x.push_str(&format!("{v}{u}"));
            total += v * k;
        }
    };
    put(&mut x, w, 'W', 604800, r);
    put(&mut x, d, 'D', 86400, r);
    if t {
        x.push('T');
        put(&mut x, h, 'H', 3600, r);
        put(&mut x, m, 'M', 60, r);
        put(&mut x, s, 'S', 1, r);
    }
    (x, chrono::TimeDelta::seconds(if neg { -total } else { total }))
}
pub fn dur_ser(d: &chrono::TimeDelta) -> String {
    let s = d.num_seconds();
    if s == 0 {
        "P0D".into()
    } else if s < 0 {
        format!("-PT{}S", -s)
    } else {
        format!("PT{s}S")
    }
}
pub const DAYS: [(&str, ikal::Weekday); 7] = [
    ("SU", ikal::Weekday::Sunday),
    ("MO", ikal::Weekday::Monday),
    ("TU", ikal::Weekday::Tuesday),
    ("WE", ikal::Weekday::Wenesday),
    ("TH", ikal::Weekday::Thurday),
    ("FR", ikal::Weekday::Friday),
    ("SA", ikal::Weekday::Saturday),
];
pub const FREQS: [(&str, ikal::Freq); 7] = [
    ("SECONDLY", ikal::Freq::Secondly),
    ("MINUTELY", ikal::Freq::Minutely),
    ("HOURLY", ikal::Freq::Hourly),
    ("DAILY", ikal::Freq::Daily),
    ("WEEKLY", ikal::Freq::Weekly),
    ("MONTHLY", ikal::Freq::Monthly),
    ("YEARLY", ikal::Freq::Yearly),
];
pub const STATUSES: [(&str, ikal::Status); 8] = [
    ("TENTATIVE", ikal::Status::Tentative),
    ("CONFIRMED", ikal::Status::Confirmed),
    ("CANCELLED", ikal::Status::Cancelled),
    ("NEEDS-ACTION", ikal::Status::NeedsAction),
    ("COMPLETED", ikal::Status::Completed),
    ("IN-PROCESS", ikal::Status::InProcess),
    ("DRAFT", ikal::Status::Draft),
    ("FINAL", ikal::Status::Final),
];
pub fn token_of<T: PartialEq>(t: &[(&'static str, T)], v: &T) -> &'static str {
    t.iter().find(|x| x.1 == *v).unwrap().0
}

pub fn recur_ser(x: &ikal::Recur) -> String {
    let mut v = vec![format!("FREQ={}", token_of(&FREQS, &x.freq))];
    if let Some(u) = &x.until {
        v.push(format!("UNTIL={}", date_ser(u)));
    }
    if let Some(c) = x.count {
        v.push(format!("COUNT={c}"));
    }
    v.push(format!("INTERVAL={}", x.interval));
    let mut l = |n: &str, y: &Vec<i8>| {
        if !y.is_empty() {
            v.push(format!("{n}={}", y.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")));
        }
    };
    l("BYSECOND", &x.by_second);
    l("BYMINUTE", &x.by_minute);
    l("BYHOUR", &x.by_hour);
    if !x.by_day.is_empty() {
        let d: Vec<String> = x
            .by_day
            .iter()
            .map(|d| format!("{}{}", d.ord.map(|o| o.to_string()).unwrap_or_default(), token_of(&DAYS, &d.weekday)))
            .collect();
        v.push(format!("BYDAY={}", d.join(",")));
    }
    let mut l = |n: &str, y: &Vec<i8>| {
        if !y.is_empty() {
            v.push(format!("{n}={}", y.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")));
        }
    };
    l("BYMONTHDAY", &x.by_monthday);
    l("BYYEARDAY", &x.by_yearday);
    l("BYWEEKNO", &x.by_weekno);
    l("BYMONTH", &x.by_month);
    l("BYSETPOS", &x.by_setpos);
    if let Some(w) = &x.wkst {
        v.push(format!("WKST={}", token_of(&DAYS, w)));
    }
    v.join(";")
}
pub fn recur(r: &mut Rng, g: G) -> ikal::Recur {
    let mut l = |r: &mut Rng| -> Vec<i8> {
        if r.pct(75) {
            vec![]
        } else {
            (0..1 + r.some(4)).map(|_| *r.pick(&[-128i8, -1, 0, 1, 5, 12, 31, 127, 59])).collect()
        }
    };
    ikal::Recur {
        freq: r.pick(&FREQS).1.clone(),
        until: if r.chance(3) { Some(anydate(r, g).1) } else { None },
        count: if r.chance(3) { Some(*r.pick(&[0u8, 1, 2, 10, 255])) } else { None },
        interval: *r.pick(&[0u8, 1, 2, 3, 10, 255]),
        by_second: l(r),
        by_minute: l(r),
        by_hour: l(r),
        by_day: if r.chance(3) {
            (0..1 + r.some(4))
                .map(|_| ikal::WeekdayNum { weekday: r.pick(&DAYS).1.clone(), ord: if r.chance(2) { Some(*r.pick(&[-53i8, -1, 1, 2, 53, 0])) } else { None } })
                .collect()
        } else {
            vec![]
        },
        by_monthday: l(r),
        by_yearday: l(r),
        by_weekno: l(r),
        by_month: l(r),
        by_setpos: l(r),
        wkst: if r.chance(3) { Some(r.pick(&DAYS).1.clone()) } else { None },
    }
}
pub fn anydate(r: &mut Rng, g: G) -> (String, ikal::Date) {
    if r.chance(2) {
        let d = date(r);
        (date_text(d), ikal::Date::Date(d))
    } else {
        let (t, d) = datetime(r, g);
        (t, ikal::Date::DateTime(d))
    }
}
pub fn period(r: &mut Rng, g: G) -> (String, ikal::Period) {
    let (a, s) = datetime(r, g);
    if r.chance(2) {
        let (b, e) = datetime(r, g);
        (format!("{a}/{b}"), ikal::Period::StartEnd(ikal::period::StartEnd { start: s, end: e }))
    } else {
        let (mut b, mut d) = dur(r);
        while b.starts_with('-') {
            (b, d) = dur(r);
        }
        (format!("{a}/{b}"), ikal::Period::StartDur(ikal::period::StartDur { start: s, duration: d }))
    }
}
pub fn period_ser(p: &ikal::Period) -> String {
    match p {
        ikal::Period::StartEnd(x) => format!("{}/{}", datetime_ser(&x.start), datetime_ser(&x.end)),
        ikal::Period::StartDur(x) => format!("{}/{}", datetime_ser(&x.start), dur_ser(&x.duration)),
    }
}
pub fn offset(r: &mut Rng, secs: bool) -> (String, chrono::FixedOffset) {
    let mut o = match r.below(4) {
        0 => *r.pick(&[0i64, 3600, -3600, 86340, -86340, 60, -60, 1800, -1800, 12600, -12600]),
        _ => r.range(-86399, 86399),
    };
    if !secs {
        o = o / 60 * 60;
    }
    let a = o.abs();
    let mut t = format!("{}{:02}{:02}", if o < 0 { '-' } else { '+' }, a / 3600, a / 60 % 60);
    if a % 60 != 0 {
        t.push_str(&format!("{:02}", a % 60));
    }
    (t, chrono::FixedOffset::east_opt(o as i32).unwrap())
}

// ------------------------------------------------------------------ kinds of property values

pub trait Kind {
    type T: Clone + PartialEq + std::fmt::Debug;
    /// parameters and value text, and the value they stand for
    fn wire(r: &mut Rng) -> (Params, String, Self::T);
    /// a text that is no such value
    fn bad(_r: &mut Rng) -> Option<String> {
        None
    }
    fn val(r: &mut Rng, g: G) -> Self::T;
    fn with_params(v: Self::T, _p: &Params) -> Self::T {
        v
    }
    fn attr(_v: &Self::T) -> Option<String> {
        None
    }
    fn ser(v: &Self::T) -> String;
}
macro_rules! kind {
    ($k:ident, $t:ty, wire $r1:ident $w:expr, bad $r2:ident $b:expr, val $r3:ident $g:ident $v:expr, attr $x:ident $a:expr, ser $y:ident $s:expr) => {
        pub struct $k;
        impl Kind for $k {
            type T = $t;
            fn wire($r1: &mut Rng) -> (Params, String, $t) {
                $w
            }
            fn bad($r2: &mut Rng) -> Option<String> {
                $b
            }
            fn val($r3: &mut Rng, $g: G) -> $t {
                $v
            }
            fn attr($x: &$t) -> Option<String> {
                $a
            }
            fn ser($y: &$t) -> String {
                $s
            }
        }
    };
}
pub const BADNUM: [&str; 9] = ["", "x", "1x", "256", "-1", "99999999999999999999", "1.5", " 1", "--1"];
/// a list with one element that cannot be read
pub fn bad_list(r: &mut Rng, mut v: Vec<String>, bad: String) -> String {
    let i = match r.below(3) {
        0 => 0,
        1 => v.len(),
        _ => r.below(v.len() + 1),
    };
    v.insert(i, bad);
    v.join(",")
}
fn bad(r: &mut Rng, xs: &[&str]) -> Option<String> {
    Some(r.pick(xs).to_string())
}
pub const BADDATE: [&str; 9] = ["", "x", "20241301", "20240230", "2024010", "20240101T", "20240101T250000", "20240101T000000ZZZX", "P1D"];
const BADDT: [&str; 7] = ["", "x", "20240101", "20240230T000000", "20240101T", "20240101T250000", "20240101T006000"];
pub const BADDUR: [&str; 12] = ["", "P", "1D", "-1D", "P1", "P1X", "PD", "P1DT1X", "P99999999999999999999D", "P9223372036854775807W", "PT9223372036854775807H", "P1D 1"];

kind!(TextK, ikal::Text,
    wire r { let p = params(r, WIRE); let t = wire_text(r); (p.clone(), t.clone(), ikal::Text { params: p, text: t }) },
    bad _r None,
    val r g { let p = params(r, g); ikal::Text { params: p, text: text(r, g.special, if g.special { 0 } else { 1 }) } },
    attr v attr_of(&v.params), ser v esc(&v.text));
kind!(UriK, ikal::Uri,
    wire r { let p = params(r, WIRE); let t = wire_text(r); (p.clone(), t.clone(), ikal::Uri { params: p, uri: t }) },
    bad _r None,
    val r g { let p = params(r, g); ikal::Uri { params: p, uri: text(r, g.special, if g.special { 0 } else { 1 }) } },
    attr v attr_of(&v.params), ser v esc(&v.uri));
kind!(DateTimeK, ikal::DateTime,
    wire r { let (t, v) = datetime(r, WIRE); (Params::new(), t, v) },
    bad r bad(r, &BADDT),
    val r g datetime(r, g).1, attr _v None, ser v datetime_ser(v));
kind!(DateK, ikal::Date,
    wire r { let (t, v) = anydate(r, WIRE); (Params::new(), t, v) },
    bad r bad(r, &BADDATE),
    val r g anydate(r, g).1,
    attr v match v { ikal::Date::Date(_) => Some("VALUE=DATE".into()), _ => None }, ser v date_ser(v));
kind!(DurK, chrono::TimeDelta,
    wire r { let (t, v) = dur(r); (Params::new(), t, v) },
    bad r { let b = bad(r, &BADDUR); if b.as_deref() == Some("P") { Some("".into()) } else { b } },
    val r _g dur(r).1, attr _v None, ser v dur_ser(v));
kind!(TriggerK, ikal::Trigger,
    wire r { if r.chance(2) { let (t, v) = dur(r); (Params::new(), t, ikal::Trigger::Duration(v)) } else { let (t, v) = datetime(r, WIRE); (Params::new(), t, ikal::Trigger::DateTime(v)) } },
    bad r bad(r, &["", "x", "P1X", "20240101", "P99999999999999999999D"]),
    val r g { if r.chance(2) { ikal::Trigger::Duration(dur(r).1) } else { ikal::Trigger::DateTime(datetime(r, g).1) } },
    attr v Some(match v { ikal::Trigger::DateTime(_) => "VALUE=DATE-TIME", _ => "VALUE=DURATION" }.into()),
    ser v match v { ikal::Trigger::DateTime(d) => datetime_ser(d), ikal::Trigger::Duration(d) => dur_ser(d) });
kind!(ClassK, ikal::Class,
    wire r { let (t, v) = match r.below(5) { 0 => ("PUBLIC".to_string(), ikal::Class::Public), 1 => ("PRIVATE".into(), ikal::Class::Private), 2 => ("CONFIDENTIAL".into(), ikal::Class::Confidential),
        _ => { let t = r.pick(&["X-FOO", "public", "PUBLIC ", "", "Confidential", "PRIVATEE", "iana-é"]).to_string(); (t.clone(), ikal::Class::Custom(t)) } }; (Params::new(), t, v) },
    bad _r None,
    val r g match r.below(5) { 0 => ikal::Class::Public, 1 => ikal::Class::Private, 2 => ikal::Class::Confidential, _ => if g.special { ikal::Class::Custom(text(r, true, 0)) } else { ikal::Class::Custom("X-FOO".into()) } },
    attr _v None,
    ser v match v { ikal::Class::Public => "PUBLIC".into(), ikal::Class::Private => "PRIVATE".into(), ikal::Class::Confidential => "CONFIDENTIAL".into(), ikal::Class::Custom(c) => esc(&c.to_uppercase()) });
kind!(StatusK, ikal::Status,
    wire r { let x = r.pick(&STATUSES).clone(); (Params::new(), x.0.to_string(), x.1) },
    bad r bad(r, &["", "x", "CONFIRMED ", "confirmed", "CANCELED", "FINAL,DRAFT", "NEEDS ACTION", "INPROCESS"]),
    val r _g r.pick(&STATUSES).1.clone(), attr _v None, ser v token_of(&STATUSES, v).into());
kind!(TranspK, ikal::TimeTransparency,
    wire r { if r.chance(2) { (Params::new(), "OPAQUE".into(), ikal::TimeTransparency::Opaque) } else { (Params::new(), "TRANSPARENT".into(), ikal::TimeTransparency::Transparent) } },
    bad r bad(r, &["", "x", "opaque", "OPAQUE ", "TRANSPAREN"]),
    val r _g if r.chance(2) { ikal::TimeTransparency::Opaque } else { ikal::TimeTransparency::Transparent },
    attr _v None, ser v match v { ikal::TimeTransparency::Opaque => "OPAQUE", _ => "TRANSPARENT" }.into());
const FL: [(&str, f32); 8] = [("1.5", 1.5), ("-0.25", -0.25), ("37", 37.0), ("0", 0.0), ("-122.125", -122.125), ("12.5", 12.5), ("2.75", 2.75), ("90", 90.0)];
kind!(GeoK, ikal::Geo,
    wire r { let (a, b) = (*r.pick(&FL), *r.pick(&FL)); (Params::new(), format!("{};{}", a.0, b.0), ikal::Geo { lat: a.1, lon: b.1 }) },
    bad r bad(r, &["", "x", "1.5", "1.5;", ";1.5", "1.5,2.5", "a;b"]),
    val r _g { let (a, b) = (*r.pick(&FL), *r.pick(&FL)); ikal::Geo { lat: a.1, lon: b.1 } },
    attr _v None, ser v format!("{};{}", FL.iter().find(|x| x.1 == v.lat).unwrap().0, FL.iter().find(|x| x.1 == v.lon).unwrap().0));
kind!(PrioK, u8,
    wire r { let n = r.below(10) as u8; (Params::new(), n.to_string(), n) },
    bad r if r.chance(2) { Some((10 + r.below(300)).to_string()) } else { bad(r, &BADNUM) },
    val r _g r.below(10) as u8, attr _v None, ser v v.to_string());
kind!(U8K, u8,
    wire r { let n = r.below(256) as u8; (Params::new(), n.to_string(), n) },
    bad r bad(r, &BADNUM),
    val r _g r.below(256) as u8, attr _v None, ser v v.to_string());
kind!(U32K, u32,
    wire r { let n = *r.pick(&[0u32, 1, 2, 255, 256, 65536, 4294967295]); (Params::new(), n.to_string(), n) },
    bad r { let b = bad(r, &BADNUM); if b.as_deref() == Some("256") { Some("4294967296".into()) } else { b } },
    val r _g *r.pick(&[0u32, 1, 2, 255, 256, 65536, 4294967295]), attr _v None, ser v v.to_string());
kind!(RecurK, ikal::Recur,
    wire r { let v = recur(r, G { utc: false, ..WIRE }); (Params::new(), recur_ser(&v), v) },
    bad r bad(r, &["", "x", "COUNT=3", "FREQ=x", "FREQ=DAILY;COUNT=x", "FREQ=DAILY;UNTIL=x", "FREQ=DAILY;BYDAY=XX", "FREQ=DAILY;INTERVAL=256", "FREQ=DAILY;BYHOUR=1,,2", "FREQ=DAILY;WKST=MONDAY", "FREQ=DAILY;;COUNT=1", "FREQ=DAILY;BYHOUR=128"]),
    val r g recur(r, g), attr _v None, ser v recur_ser(v));
kind!(RstatusK, ikal::RequestStatus,
    wire r { let a = *r.pick(&[("2.0", 2.0f32), ("3.5", 3.5), ("4", 4.0)]);
        let d: String = wire_text(r).chars().filter(|c| *c != ';').collect();
        let e = if r.chance(2) { Some(wire_text(r)) } else { None };
        (Params::new(), format!("{};{}{}", a.0, d, e.as_ref().map(|e| format!(";{e}")).unwrap_or_default()), ikal::RequestStatus { statcode: a.1, statdesc: d, extdata: e }) },
    bad r bad(r, &["", "x", "2.0", "x;y"]),
    val r g { let a = *r.pick(&[2.0f32, 3.5, 4.0]); ikal::RequestStatus { statcode: a, statdesc: text(r, g.special, 0), extdata: if r.chance(2) { Some(text(r, g.special, 0)) } else { None } } },
    attr _v None,
    ser v format!("{:.1};{}{}", v.statcode, esc(&v.statdesc), v.extdata.as_ref().map(|e| format!(";{}", esc(e))).unwrap_or_default()));
kind!(RdateK, ikal::RDate,
    wire r { if r.chance(2) {
            let v: Vec<_> = (0..1 + r.some(3)).map(|_| period(r, WIRE)).collect();
            let mut p = Params::new(); p.insert("VALUE".into(), "PERIOD".into());
            if r.chance(3) { p.insert("TZID".into(), "X".into()); }
            (p, v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","), ikal::RDate::Period(v.into_iter().map(|x| x.1).collect()))
        } else {
            let v: Vec<_> = (0..1 + r.some(3)).map(|_| anydate(r, WIRE)).collect();
            let mut p = Params::new();
            if r.chance(2) { p.insert("VALUE".into(), r.pick(&["DATE", "DATE-TIME", "period", "PERIODS"]).to_string()); }
            (p, v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","), ikal::RDate::Date(v.into_iter().map(|x| x.1).collect()))
        } },
    bad r if r.chance(2) { bad(r, &["", "x", "20240101,", "20240101,,20240102", "19960403T020000Z/PT3H", "20240101;20240102"]) } else {
        let v: Vec<_> = (0..1 + r.some(3)).map(|_| anydate(r, WIRE).0).collect(); let b = r.pick(&BADDATE).to_string(); Some(bad_list(r, v, b)) },
    val r g { if r.chance(2) { ikal::RDate::Period((0..1 + r.some(3)).map(|_| period(r, g).1).collect()) } else { ikal::RDate::Date((0..1 + r.some(3)).map(|_| anydate(r, g).1).collect()) } },
    attr v match v { ikal::RDate::Period(_) => Some("VALUE=PERIOD".into()), ikal::RDate::Date(d) => if d.iter().any(|x| matches!(x, ikal::Date::DateTime(_))) { None } else { Some("VALUE=DATE".into()) } },
    ser v match v { ikal::RDate::Period(p) => p.iter().map(period_ser).collect::<Vec<_>>().join(","), ikal::RDate::Date(d) => d.iter().map(date_ser).collect::<Vec<_>>().join(",") });
kind!(PeriodK, ikal::Period,
    wire r { let (t, v) = period(r, WIRE); (Params::new(), t, v) },
    bad r bad(r, &["", "x", "19960403T020000Z", "/", "19960403T020000Z/", "19960403T020000Z/x", "/PT1H", "19960403T020000Z/P1X", "19960403/PT1H"]),
    val r g period(r, g).1, attr _v None, ser v period_ser(v));
kind!(OffsetK, chrono::FixedOffset,
    wire r { let (t, v) = offset(r, false); (Params::new(), t, v) },
    bad r bad(r, &["", "x", "0100", "+2500", "+01", "+0160"]),
    val r g offset(r, g.special).1, attr _v None,
    ser v { let o = v.local_minus_utc(); let a = o.abs(); let mut t = format!("{}{:02}{:02}", if o < 0 { '-' } else { '+' }, a / 3600, a / 60 % 60); if a % 60 != 0 { t.push_str(&format!("{:02}", a % 60)); } t });
/// text element of a comma list; the line's parameters belong to each
pub struct ItemK;
impl Kind for ItemK {
    type T = ikal::Text;
    fn wire(r: &mut Rng) -> (Params, String, ikal::Text) {
        let t: String = wire_text(r).chars().filter(|c| *c != ',').collect();
        (Params::new(), t.clone(), ikal::Text { params: Params::new(), text: t })
    }
    fn val(r: &mut Rng, g: G) -> ikal::Text {
        TextK::val(r, g)
    }
    fn attr(v: &ikal::Text) -> Option<String> {
        attr_of(&v.params)
    }
    fn ser(v: &ikal::Text) -> String {
        esc(&v.text)
    }
    fn with_params(mut v: ikal::Text, p: &Params) -> ikal::Text {
        v.params = p.clone();
        v
    }
}

// ------------------------------------------------------------------ trees

#[derive(Clone, Debug, PartialEq)]
pub struct Tree {
    pub name: String,
    pub lines: Vec<String>,
    pub kids: Vec<Tree>,
}
impl Tree {
    pub fn new(name: &str) -> Self {
        Tree { name: name.into(), lines: vec![], kids: vec![] }
    }
    /// property lines by name (in order within a name) and children by kind (in order)
    pub fn groups(&self) -> (BTreeMap<String, Vec<String>>, BTreeMap<String, Vec<Tree>>) {
        let mut a: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for l in &self.lines {
            let n: String = l.chars().take_while(|c| *c != ';' && *c != ':').collect();
            a.entry(n).or_default().push(l.clone());
        }
        let mut b: BTreeMap<String, Vec<Tree>> = BTreeMap::new();
        for k in &self.kids {
            b.entry(k.name.clone()).or_default().push(k.clone());
        }
        (a, b)
    }
    pub fn same(&self, o: &Tree) -> bool {
        if self.name != o.name {
            return false;
        }
        let (a, b) = self.groups();
        let (c, d) = o.groups();
        a == c && b.len() == d.len() && b.iter().all(|(k, v)| d.get(k).map_or(false, |w| v.len() == w.len() && v.iter().zip(w).all(|(x, y)| x.same(y))))
    }
    pub fn text(&self) -> String {
        let mut s = format!("BEGIN:{}\r\n", self.name);
        for l in &self.lines {
            s.push_str(l);
            s.push_str("\r\n");
        }
        for k in &self.kids {
            s.push_str(&k.text());
        }
        s.push_str(&format!("END:{}\r\n", self.name));
        s
    }
    /// reads unfolded output
    pub fn read(s: &str) -> Result<Tree, String> {
        let mut ls: Vec<&str> = s.split("\r\n").collect();
        if ls.pop() != Some("") {
            return Err("output does not end with CRLF".into());
        }
        let mut it = ls.into_iter();
        let first = it.next().ok_or("empty output")?;
        let name = first.strip_prefix("BEGIN:").ok_or(format!("output starts with {first:?}"))?;
        let t = Self::body(name, &mut it)?;
        match it.next() {
            None => Ok(t),
            Some(x) => Err(format!("text after the end: {x:?}")),
        }
    }
    fn body<'a>(name: &str, it: &mut impl Iterator<Item = &'a str>) -> Result<Tree, String> {
        let mut t = Tree::new(name);
        loop {
            let l = it.next().ok_or(format!("no END:{name}"))?;
            if let Some(n) = l.strip_prefix("BEGIN:") {
                t.kids.push(Self::body(n, it)?);
            } else if let Some(n) = l.strip_prefix("END:") {
                return if n == name { Ok(t) } else { Err(format!("END:{n} closes {name}")) };
            } else {
                t.lines.push(l.to_string());
            }
        }
    }
}
pub fn line(name: &str, attr: Option<String>, value: &str) -> String {
    match attr {
        Some(a) => format!("{name};{a}:{value}"),
        None => format!("{name}:{value}"),
    }
}
