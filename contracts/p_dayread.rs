// The bodies of the weekdays' from_str, as functions of their own.
pub mod dayread {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::properties::*;
    use crate::properties::recur::*;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C05,C17
    //@ impl crate::properties::recur | FromStr for Weekday | inherent
    //@ method from_str
    //@ as vx_from_str
    //@ ret r
        ensures match r { Ok(v) => <Weekday as FromStr>::parse_ok(s@, v), Err(_) => <Weekday as FromStr>::parse_err(s@) }
    //@ closure 0 |p: (&str, Weekday)| -> (q: Weekday)
        ensures q == p.1
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::recur | FromStr for WeekdayNum | inherent
    //@ method from_str
    //@ as vx_from_str
    //@ ret r
        ensures match r { Ok(v) => <WeekdayNum as FromStr>::parse_ok(s@, v), Err(_) => <WeekdayNum as FromStr>::parse_err(s@) }
    //@ closure 0 |p: (&str, WeekdayNum)| -> (q: WeekdayNum)
        ensures q == p.1
    //@ keep
    //@ end
    //@ endimpl
    //@ props
}
