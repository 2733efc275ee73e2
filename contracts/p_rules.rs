// Texts of recurrence rules.
pub mod rules {
    use vstd::prelude::*;
    use crate::grammar::*;
    use crate::xstd::prelude::*;
    use crate::parser::datatype::{pieces, comma, dodt_ok, dodt_err};
    use crate::properties::recur::{Recur, Freq, Weekday, WeekdayNum, day_token, wday_at, no_wday, no_day};
    /// NAME=text and what follows the semicolon
    #[verifier::opaque]
    pub open spec fn g_item(s: Seq<char>) -> Option<(Param, Seq<char>)> {
        match after_char(back(Cls::Name, s), '=') {
            Some(t) => Some(((front(Cls::Name, s), front(Cls::Item, t)), match after_char(back(Cls::Item, t), ';') { Some(u) => u, None => back(Cls::Item, t) })),
            None => None,
        }
    }
    /// as many as there are
    #[verifier::opaque]
    pub open spec fn g_items(s: Seq<char>) -> (Seq<Param>, Seq<char>) decreases s.len() {
        match g_item(s) {
            Some((p, t)) => if t.len() < s.len() { (seq![p] + g_items(t).0, g_items(t).1) } else { (Seq::empty(), s) },
            None => (Seq::empty(), s),
        }
    }
    pub proof fn lemma_g_item(s: Seq<char>)
        ensures g_item(s) matches Some((p, t)) ==> t.len() < s.len()
    { reveal(g_item); broadcast use lemma_run; }
    /// the whole text is items, at least one
    pub open spec fn items(s: Seq<char>) -> Option<Map<Seq<char>, Seq<char>>> {
        if g_items(s).1.len() == 0 && g_items(s).0.len() > 0 { Some(entries(g_items(s).0)) } else { None }
    }
    // numbers
    pub open spec fn num_ok(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, v: Option<u8>) -> bool {
        match v { Some(n) => m.contains_key(k) && <u8 as FromStr>::parse_ok(m[k], n), None => !m.contains_key(k) }
    }
    pub open spec fn num_err(m: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> bool { m.contains_key(k) && <u8 as FromStr>::parse_err(m[k]) }
    // lists of numbers
    pub open spec fn nums(s: Seq<char>, v: Seq<i8>) -> bool {
        exists|ps: Seq<&str>| #![trigger crate::xstd::joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> <i8 as FromStr>::parse_ok(ps[k]@, #[trigger] v[k])
    }
    pub open spec fn bad_nums(s: Seq<char>) -> bool {
        exists|ps: Seq<&str>, k: int| #![trigger crate::xstd::joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && <i8 as FromStr>::parse_err(ps[k]@)
    }
    pub open spec fn list_ok(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, v: Seq<i8>) -> bool { if m.contains_key(k) { nums(m[k], v) } else { v.len() == 0 } }
    pub open spec fn list_err(m: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> bool { m.contains_key(k) && bad_nums(m[k]) }
    // weekdays
    pub open spec fn wdays(s: Seq<char>, v: Seq<WeekdayNum>) -> bool {
        exists|ps: Seq<&str>| #![trigger crate::xstd::joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> <WeekdayNum as FromStr>::parse_ok(ps[k]@, #[trigger] v[k])
    }
    pub open spec fn bad_wdays(s: Seq<char>) -> bool {
        exists|ps: Seq<&str>, k: int| #![trigger crate::xstd::joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && <WeekdayNum as FromStr>::parse_err(ps[k]@)
    }
    /// each part from the item of its name
    pub open spec fn fields(m: Map<Seq<char>, Seq<char>>, r: Recur) -> bool {
        &&& m.contains_key("FREQ"@) && <Freq as FromStr>::parse_ok(m["FREQ"@], r.freq)
        &&& match r.until { Some(d) => m.contains_key("UNTIL"@) && dodt_ok(m["UNTIL"@], d), None => !m.contains_key("UNTIL"@) }
        &&& num_ok(m, "COUNT"@, r.count)
        &&& if m.contains_key("INTERVAL"@) { <u8 as FromStr>::parse_ok(m["INTERVAL"@], r.interval) } else { r.interval == 1 }
        &&& list_ok(m, "BYSECOND"@, r.by_second@)
        &&& list_ok(m, "BYMINUTE"@, r.by_minute@)
        &&& list_ok(m, "BYHOUR"@, r.by_hour@)
        &&& if m.contains_key("BYDAY"@) { wdays(m["BYDAY"@], r.by_day@) } else { r.by_day@.len() == 0 }
        &&& list_ok(m, "BYMONTHDAY"@, r.by_monthday@)
        &&& list_ok(m, "BYYEARDAY"@, r.by_yearday@)
        &&& list_ok(m, "BYWEEKNO"@, r.by_weekno@)
        &&& list_ok(m, "BYMONTH"@, r.by_month@)
        &&& list_ok(m, "BYSETPOS"@, r.by_setpos@)
        &&& match r.wkst { Some(d) => m.contains_key("WKST"@) && <Weekday as FromStr>::parse_ok(m["WKST"@], d), None => !m.contains_key("WKST"@) }
    }
    pub open spec fn bad_fields(m: Map<Seq<char>, Seq<char>>) -> bool {
        ||| !m.contains_key("FREQ"@) || <Freq as FromStr>::parse_err(m["FREQ"@])
        ||| m.contains_key("UNTIL"@) && dodt_err(m["UNTIL"@])
        ||| num_err(m, "COUNT"@) || num_err(m, "INTERVAL"@)
        ||| list_err(m, "BYSECOND"@) || list_err(m, "BYMINUTE"@) || list_err(m, "BYHOUR"@)
        ||| m.contains_key("BYDAY"@) && bad_wdays(m["BYDAY"@])
        ||| list_err(m, "BYMONTHDAY"@) || list_err(m, "BYYEARDAY"@) || list_err(m, "BYWEEKNO"@) || list_err(m, "BYMONTH"@) || list_err(m, "BYSETPOS"@)
        ||| m.contains_key("WKST"@) && <Weekday as FromStr>::parse_err(m["WKST"@])
    }
    #[verifier::opaque]
    pub open spec fn rule_ok(s: Seq<char>, r: Recur) -> bool { items(s) matches Some(m) && fields(m, r) }
    #[verifier::opaque]
    pub open spec fn rule_err(s: Seq<char>) -> bool { items(s) matches Some(m) ==> bad_fields(m) }
    // a parser of one item, applied again and again
    pub open spec fn item_of(p: (&str, &str)) -> Param { (p.0@, p.1@) }
    pub open spec fn items_of(ps: Seq<(&str, &str)>) -> Seq<Param> { ps.map_values(|p: (&str, &str)| item_of(p)) }
    pub open spec fn one_item<'a, P: crate::nom::Parser<'a, (&'a str, &'a str)>>(p: P) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: (&'a str, &'a str)| #[trigger] p.ok(i, t, o) ==> g_item(i@) == Some((item_of(o), t@))
        &&& forall|i: &'a str| #[trigger] p.fails(i) ==> g_item(i@) is None
    }
    pub broadcast proof fn lemma_items<'a, P: crate::nom::Parser<'a, (&'a str, &'a str)>>(p: P, i: &'a str, t: &'a str, outs: Seq<(&'a str, &'a str)>)
        requires one_item(p), #[trigger] crate::nom::multi::chain(p, i, t, outs), p.fails(t)
        ensures g_items(i@) == (items_of(outs), t@)
        decreases outs.len()
    {
        reveal(g_items);
        if outs.len() > 0 {
            let m = choose|m: &'a str| #[trigger] p.ok(i, m, outs[0]) && m@ != i@ && crate::nom::multi::chain(p, m, t, outs.skip(1));
            lemma_items(p, m, t, outs.skip(1));
            lemma_g_item(i@);
            assert(items_of(outs) =~= seq![item_of(outs[0])] + items_of(outs.skip(1)));
        } else {
            assert(items_of(outs) =~= Seq::empty());
        }
    }
    pub broadcast proof fn lemma_no_stuck_item<'a, P: crate::nom::Parser<'a, (&'a str, &'a str)>>(p: P, i: &'a str)
        requires one_item(p)
        ensures !#[trigger] crate::nom::multi::stuck(p, i)
    {
        if crate::nom::multi::stuck(p, i) {
            let (m, rest, outs, o) = choose|m: &'a str, rest: &'a str, outs: Seq<(&'a str, &'a str)>, o: (&'a str, &'a str)| #[trigger] crate::nom::multi::chain(p, i, m, outs) && #[trigger] p.ok(m, rest, o) && m@ == rest@;
            assert(g_item(m@) == Some((item_of(o), rest@)));
            lemma_g_item(m@);
        }
    }
    pub proof fn lemma_no_item(s: Seq<char>)
        requires g_item(s) is None
        ensures items(s) is None
    { reveal(g_items); }
    /// the map collected from the items
    pub proof fn lemma_entries<V>(es: Seq<(String, V)>, ps: Seq<Param>, f: spec_fn(V) -> Seq<char>)
        requires es.len() == ps.len(), forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).0@ == ps[k].0 && f(es[k].1) == ps[k].1
        ensures entries(ps).dom() =~= crate::xstd::collections::kv(es).dom(), forall|k: Seq<char>| #[trigger] entries(ps).contains_key(k) ==> f(crate::xstd::collections::kv(es)[k]) == entries(ps)[k]
        decreases es.len()
    {
        if es.len() > 0 {
            assert forall|k: int| 0 <= k < es.drop_last().len() implies (#[trigger] es.drop_last()[k]).0@ == ps.drop_last()[k].0 && f(es.drop_last()[k].1) == ps.drop_last()[k].1 by { assert(es.drop_last()[k] == es[k]); }
            lemma_entries(es.drop_last(), ps.drop_last(), f);
        }
    }
    /// the map collected from the items of a rule
    pub broadcast proof fn lemma_named<'a, 'b>(es: Seq<(String, &'b &'a str)>, ps: Seq<(&'a str, &'a str)>)
        requires es.len() == ps.len(), forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).0@ == ps[k].0@ && es[k].1@ == ps[k].1@
        ensures
            #![trigger crate::xstd::collections::kv(es), items_of(ps)]
            forall|k: Seq<char>| #[trigger] entries(items_of(ps)).contains_key(k) == crate::xstd::collections::kv(es).contains_key(k),
            forall|k: Seq<char>| #[trigger] crate::xstd::collections::kv(es).contains_key(k) ==> crate::xstd::collections::kv(es)[k]@ == entries(items_of(ps))[k],
            forall|k: Seq<char>| entries(items_of(ps)).contains_key(k) == #[trigger] crate::xstd::collections::kv(es).contains_key(k)
    {
        let f = |v: &'b &'a str| v@;
        assert forall|k: int| 0 <= k < es.len() implies (#[trigger] es[k]).0@ == items_of(ps)[k].0 && f(es[k].1) == items_of(ps)[k].1 by { assert(items_of(ps)[k] == item_of(ps[k])); }
        lemma_entries(es, items_of(ps), f);
        assert forall|k: Seq<char>| entries(items_of(ps)).contains_key(k) == #[trigger] crate::xstd::collections::kv(es).contains_key(k) by {
            assert(entries(items_of(ps)).dom().contains(k) == crate::xstd::collections::kv(es).dom().contains(k));
        }
    }
}
