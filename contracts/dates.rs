use vstd::prelude::*;
verus! {
//@ include xstd.rs
//@ include chrono.rs
//@ include p_errors.rs
pub use errors::*;
pub mod properties {
pub use date::*;
pub use recur::*;
//@ include p_date.rs
pub mod recur {
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};
//@ include p_freq.rs
//@ include p_weekday.rs
//@ include p_step.rs
}
}
pub use properties::*;
//@ include p_ser.rs
    //@ newfns crate::ser
    //@ norename len
    //@ norename contains
}
//@ include p_dateser.rs
}
fn main() {}
