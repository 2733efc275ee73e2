use vstd::prelude::*;
verus! {
//@ include xstd.rs
//@ include chrono.rs
//@ include p_errors.rs
pub use errors::*;
pub mod content_line {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::content_line::ContentLine
}
pub(crate) use content_line::ContentLine;
pub mod properties {
pub use date::*;
pub use recur::*;
//@ include p_date.rs
pub mod recur {
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};
//@ include p_freq.rs
//@ include p_weekday.rs
//@ include p_step.rs
//@ include p_stepup.rs
}
//@ include p_types.rs
}
pub use properties::*;
pub mod components {
//@ include p_comps.rs
}
pub use components::*;
//@ include p_ser.rs
    //@ norename len
    //@ norename contains
}
//@ include p_dateser.rs
//@ include p_iter.rs
}
fn main() {}
