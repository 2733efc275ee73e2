use vstd::prelude::*;
verus! {
//@ include xstd.rs
//@ include chrono.rs
//@ include nom.rs
//@ include p_errors.rs
//@ include p_errors_nom.rs
pub use errors::*;
pub mod content_line {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::content_line::ContentLine
    //@ derived crate::content_line::ContentLine | Clone
    impl Clone for ContentLine { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub(crate) use content_line::ContentLine;
pub mod properties {
pub use date::*;
pub use recur::*;
//@ elsewhere dates
//@ include p_date.rs
//@ here
pub mod recur {
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};
    //@ item crate::properties::recur::Recur
//@ elsewhere tokens
//@ include p_freq.rs
//@ include p_weekday.rs
//@ here
}
pub mod text {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::properties::text::Text
}
pub mod uri {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::properties::uri::Uri
}
//@ elsewhere tokens
//@ include p_class.rs
//@ include p_status.rs
//@ include p_transp.rs
//@ here
pub mod geo {
    use vstd::prelude::*;
    //@ item crate::properties::geo::Geo
}
pub mod request_status {
    use vstd::prelude::*;
    //@ item crate::properties::request_status::RequestStatus
}
pub mod period {
    use vstd::prelude::*;
    //@ item crate::properties::period::Period
    //@ item crate::properties::period::StartEnd
    //@ item crate::properties::period::StartDur
}
pub mod rdate {
    use vstd::prelude::*;
    //@ item crate::properties::rdate::RDate
}
pub mod trigger {
    use vstd::prelude::*;
    //@ item crate::properties::trigger::Trigger
}
pub use text::*;
pub use uri::*;
pub use class::*;
pub use geo::*;
pub use status::*;
pub use request_status::*;
pub use period::Period;
pub use rdate::*;
pub use trigger::Trigger;
pub use time_transparency::*;
}
pub use properties::*;
//@ include p_components.rs
//@ elsewhere write
//@ include p_values.rs
//@ here
//@ elsewhere values
pub mod parser {
    pub(crate) type NomResult<I, O> = crate::nom::IResult<I, O, crate::nom_language::error::VerboseError<I>>;
    pub use datatype::*;
    use vstd::prelude::*;
//@ include p_props.rs
//@ include p_datatype.rs
//@ here
pub mod lines {
    use vstd::prelude::*;
    //@ uses crate::parser
    type NomResult<I, O> = crate::nom::IResult<I, O, crate::nom_language::error::VerboseError<I>>;
//@ elsewhere lines
//@ include p_clines.rs
//@ here
}
pub use lines::*;
pub use components::*;
pub mod components {
//@ elsewhere nest
//@ include p_pcomp.rs
//@ here
}
}
//@ include p_unfold.rs
//@ include p_entry.rs
//@ elsewhere read
//@ include p_prop.rs
//@ include p_rlines.rs
//@ include p_rcomp.rs
//@ include p_ralarm.rs
//@ here
//@ include p_grammar.rs
//@ include p_spans.rs
//@ include p_rules.rs
//@ include p_dayvals.rs
//@ include p_glue.rs
//@ include p_nest.rs
}
fn main() {}
