// Reading of recurrence rules.
pub mod recurrence {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rules::*;
    use crate::grammar::*;
    use crate::parser::datatype::*;
    broadcast use {crate::xstd::ax_str_ext};
    //@ rename split vx_split
    //@ rename iter vx_iter
    //@ props C17
    //@ fn crate::parser::recurrence::rrule::item
    //@ ret r
        ensures match r { Ok((t, o)) => g_item(input@) == Some((item_of(o), t@)), Err(e) => e is Error && g_item(input@) is None }
    //@ closure 0 |c: char| -> (b: bool)
        ensures b == (c == ';')
    //@ head
        broadcast use lemma_item_run;
        proof { reveal(g_item); }
    //@ end
    //@ fn crate::parser::recurrence::rrule::by
    //@ ret r
        ensures match r { Ok(v) => nums(input@, v@), Err(_) => bad_nums(input@) }
    //@ head
        proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma()); }
    //@ end
    //@ fn crate::parser::recurrence::rrule::bywdaylist
    //@ ret r
        ensures match r { Ok(v) => wdays(input@, v@), Err(_) => bad_wdays(input@) }
    //@ head
        proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma()); }
    //@ end
    //@ fn crate::parser::recurrence::rrule
    //@ ret r
        ensures match r { Ok(v) => P_rrule::ok(input, v), Err(_) => P_rrule::err(input) }
    //@ closure 0 |items: Vec<(&str, &str)>| -> (q: core::result::Result<crate::Recur, crate::Error>)
        ensures match q { Ok(v) => fields(entries(items_of(items@)), v), Err(_) => bad_fields(entries(items_of(items@))) }
    //@ closure 1 |p: _| -> (q: (String, &&str))
        ensures q.0@ == p.0@, q.1@ == p.1@
    //@ closure 2 || -> (q: crate::Error)
    //@ closure 3 |x: &&&str| -> (q: crate::Result<crate::Date>)
        ensures match q { Ok(v) => dodt_ok(x@, v), Err(_) => dodt_err(x@) }
    //@ closure 4 |y: (&str, crate::Date)| -> (q: crate::Date)
        ensures q == y.1
    //@ closure 5 |x: &&&str| -> (q: core::result::Result<u8, crate::xstd::num::ParseIntError>)
        ensures match q { Ok(v) => <u8 as FromStr>::parse_ok(x@, v), Err(_) => <u8 as FromStr>::parse_err(x@) }
    //@ closure 6 |x: &&&str| -> (q: core::result::Result<u8, crate::xstd::num::ParseIntError>)
        ensures match q { Ok(v) => <u8 as FromStr>::parse_ok(x@, v), Err(_) => <u8 as FromStr>::parse_err(x@) }
    //@ closure 7 |x: &&&str| -> (q: core::result::Result<crate::Weekday, crate::Error>)
        ensures match q { Ok(v) => <crate::Weekday as FromStr>::parse_ok(x@, v), Err(_) => <crate::Weekday as FromStr>::parse_err(x@) }
    //@ closure 8 |p: (&str, crate::Recur)| -> (q: crate::Recur)
        ensures q == p.1
    //@ before let recur
        broadcast use lemma_named;
    //@ noreveal
    //@ head
        broadcast use {lemma_items, lemma_no_stuck_item};
        proof { reveal(rule_ok); reveal(rule_err); if g_item(input.value@) is None { lemma_no_item(input.value@); } }
    //@ end
    //@ norename split
    //@ norename iter
    //@ props
    broadcast proof fn lemma_item_run(s: Seq<char>, n: int)
        requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> cls(Cls::Item, #[trigger] s[j]), n < s.len() ==> !cls(Cls::Item, s[n])
        ensures #![trigger s.take(n), front(Cls::Item, s)] front(Cls::Item, s) == s.take(n), back(Cls::Item, s) == s.skip(n)
    { lemma_run_is(Cls::Item, s, n); }
}
