// Weekdays made from text.
pub mod dayvals {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::properties::*;
    use crate::properties::recur::*;
    //@ uses crate::properties::recur
    broadcast use crate::xstd::ax_str_ext;
    //@ props C05,C17
    //@ impl crate::properties::recur | FromStr for Weekday
    open spec fn parse_ok(s: Seq<char>, v: Weekday) -> bool { s == day_token(v) }
    open spec fn parse_err(s: Seq<char>) -> bool { no_day(s) || exists|d: Weekday, rest: Seq<char>| s == #[trigger] (day_token(d) + rest) && rest.len() > 0 }
    //@ method from_str
    //@ by rules
    //@ end
    //@ endimpl
    //@ impl crate::properties::recur | FromStr for WeekdayNum
    open spec fn parse_ok(s: Seq<char>, v: WeekdayNum) -> bool { exists|rest: Seq<char>| #[trigger] wday_at(s, rest, v) && rest.len() == 0 }
    open spec fn parse_err(s: Seq<char>) -> bool { no_wday(s) || exists|d: WeekdayNum, rest: Seq<char>| #[trigger] wday_at(s, rest, d) && rest.len() > 0 }
    //@ method from_str
    //@ by rules
    //@ end
    //@ endimpl
    //@ props
}
