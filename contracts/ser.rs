use vstd::prelude::*;
verus! {
//@ include xstd.rs
//@ include chrono_min.rs
pub mod errors {
    pub type Result<T = ()> = core::result::Result<T, Error>;
    pub enum Error { Alarm(String) }
}
pub use errors::*;
//@ include p_ser.rs
    //@ newfns crate::ser
    //@ norename len
    //@ norename contains
}
}
fn main() {}
