use vstd::prelude::*;
verus! {
//@ include xstd.rs
//@ include chrono_min.rs
pub mod errors {
    pub type Result<T = ()> = core::result::Result<T, Error>;
    pub enum Error { Alarm(String) }
}
pub use errors::*;
//@ include p_ser.rs
    //@ norename len
    //@ norename contains
    //@ norename join
}
//@ include p_grammar.rs
//@ include p_unfold.rs
//@ include p_written.rs
//@ include p_back.rs
}
fn main() {}
