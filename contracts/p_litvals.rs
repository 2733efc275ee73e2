// Values made from literals.
pub mod period {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::parser::datatype::{per_ok, per_err};
    //@ uses crate::properties::period
    //@ props C06
    //@ item crate::properties::period::Period
    //@ item crate::properties::period::StartEnd
    //@ item crate::properties::period::StartDur
    //@ impl crate::properties::period | FromStr for Period
    open spec fn parse_ok(s: Seq<char>, v: Period) -> bool { per_ok(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { per_err(s) }
    //@ method from_str
    //@ keep
    //@ end
    //@ endimpl
    //@ props
}
pub mod trigger {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::properties::date::*;
    //@ uses crate::properties::trigger
    //@ props C06,C07
    //@ item crate::properties::trigger::Trigger
    //@ impl crate::properties::trigger | FromStr for Trigger
    open spec fn parse_ok(s: Seq<char>, v: Trigger) -> bool {
        match v { Trigger::DateTime(t) => <DateTime as FromStr>::parse_ok(s, t), Trigger::Duration(d) => <DateTime as FromStr>::parse_err(s) && crate::lits::literal(s) == Some(d.ns()) }
    }
    open spec fn parse_err(s: Seq<char>) -> bool { <DateTime as FromStr>::parse_err(s) && crate::lits::literal(s) is None }
    //@ method from_str
    //@ keep
    //@ end
    //@ endimpl
    //@ props
}
pub mod rdate {
    use vstd::prelude::*;
    //@ item crate::properties::rdate::RDate
}
pub mod geo {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::parser::datatype::{geo_ok, geo_err};
    //@ uses crate::properties::geo
    //@ props C06
    //@ item crate::properties::geo::Geo
    //@ impl crate::properties::geo | FromStr for Geo
    open spec fn parse_ok(s: Seq<char>, v: Geo) -> bool { geo_ok(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { geo_err(s) }
    //@ method from_str
    //@ keep
    //@ end
    //@ endimpl
    //@ props
}
pub mod request_status {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::parser::datatype::{rstatus_ok, rstatus_err};
    //@ uses crate::properties::request_status
    //@ props C06
    //@ item crate::properties::request_status::RequestStatus
    //@ impl crate::properties::request_status | FromStr for RequestStatus
    open spec fn parse_ok(s: Seq<char>, v: RequestStatus) -> bool { rstatus_ok(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { rstatus_err(s) }
    //@ method from_str
    //@ keep
    //@ end
    //@ endimpl
    //@ props
}
