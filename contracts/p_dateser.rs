// The text of dates in a calendar.
pub mod date_ser {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::properties::date::*;
    use crate::chrono::{NaiveDate, NaiveDateTime, Local};
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};
    //@ props C10,C11
    //@ impl crate::properties::date | Serialize for DateTime
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.shown() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::date | Serialize for Date
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { match self { Date::Date(_) => Some("VALUE=DATE"@), Date::DateTime(_) => None } }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.shown() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ props
}
