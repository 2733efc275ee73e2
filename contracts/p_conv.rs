// Values made from strings are those the strings parse to.
pub mod conv {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::properties::*;
    //@ props C05
    impl TryFromSpecImpl<String> for Class {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Class, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::class | TryFrom<String> for Class
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Class as FromStr>::parse_ok(value@, x), Err(_) => <Class as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for Class {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<Class, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::class | TryFrom<&str> for Class
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Class as FromStr>::parse_ok(value@, x), Err(_) => <Class as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props C05
    impl TryFromSpecImpl<String> for Status {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Status, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::status | TryFrom<String> for Status
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Status as FromStr>::parse_ok(value@, x), Err(_) => <Status as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for Status {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<Status, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::status | TryFrom<&str> for Status
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Status as FromStr>::parse_ok(value@, x), Err(_) => <Status as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props C05
    impl TryFromSpecImpl<String> for TimeTransparency {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<TimeTransparency, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::time_transparency | TryFrom<String> for TimeTransparency
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <TimeTransparency as FromStr>::parse_ok(value@, x), Err(_) => <TimeTransparency as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for TimeTransparency {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<TimeTransparency, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::time_transparency | TryFrom<&str> for TimeTransparency
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <TimeTransparency as FromStr>::parse_ok(value@, x), Err(_) => <TimeTransparency as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props C05
    impl TryFromSpecImpl<String> for Freq {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Freq, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<String> for Freq
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Freq as FromStr>::parse_ok(value@, x), Err(_) => <Freq as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for Freq {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<Freq, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<&str> for Freq
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Freq as FromStr>::parse_ok(value@, x), Err(_) => <Freq as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props C06
    impl TryFromSpecImpl<String> for Geo {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Geo, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::geo | TryFrom<String> for Geo
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Geo as FromStr>::parse_ok(value@, x), Err(_) => <Geo as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for Geo {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<Geo, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::geo | TryFrom<&str> for Geo
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Geo as FromStr>::parse_ok(value@, x), Err(_) => <Geo as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props C06
    impl TryFromSpecImpl<String> for RequestStatus {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<RequestStatus, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::request_status | TryFrom<String> for RequestStatus
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <RequestStatus as FromStr>::parse_ok(value@, x), Err(_) => <RequestStatus as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for RequestStatus {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<RequestStatus, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::request_status | TryFrom<&str> for RequestStatus
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <RequestStatus as FromStr>::parse_ok(value@, x), Err(_) => <RequestStatus as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props C06
    impl TryFromSpecImpl<String> for Period {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Period, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::period | TryFrom<String> for Period
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Period as FromStr>::parse_ok(value@, x), Err(_) => <Period as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for Period {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<Period, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::period | TryFrom<&str> for Period
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Period as FromStr>::parse_ok(value@, x), Err(_) => <Period as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ uses crate::properties::recur
    //@ props C17
    //@ impl crate::properties::recur | FromStr for Recur
    open spec fn parse_ok(s: Seq<char>, v: Recur) -> bool { crate::rules::rule_ok(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { crate::rules::rule_err(s) }
    //@ method from_str
    //@ keep
    //@ end
    //@ endimpl
    //@ props C05,C17
    impl TryFromSpecImpl<String> for Weekday {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Weekday, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<String> for Weekday
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Weekday as FromStr>::parse_ok(value@, x), Err(_) => <Weekday as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for Weekday {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<Weekday, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<&str> for Weekday
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Weekday as FromStr>::parse_ok(value@, x), Err(_) => <Weekday as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props C17
    impl TryFromSpecImpl<String> for WeekdayNum {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<WeekdayNum, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<String> for WeekdayNum
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <WeekdayNum as FromStr>::parse_ok(value@, x), Err(_) => <WeekdayNum as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for WeekdayNum {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<WeekdayNum, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<&str> for WeekdayNum
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <WeekdayNum as FromStr>::parse_ok(value@, x), Err(_) => <WeekdayNum as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for Recur {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Recur, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<String> for Recur
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Recur as FromStr>::parse_ok(value@, x), Err(_) => <Recur as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    impl<'a> TryFromSpecImpl<&'a str> for Recur {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &'a str) -> core::result::Result<Recur, crate::Error> { arbitrary() }
    }
    //@ impl crate::properties::recur | TryFrom<&str> for Recur
    //@ method try_from
    //@ ret r
        ensures match r { Ok(x) => <Recur as FromStr>::parse_ok(value@, x), Err(_) => <Recur as FromStr>::parse_err(value@) }
    //@ end
    //@ endimpl
    //@ props
}
