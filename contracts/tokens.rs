//@ props C05
use vstd::prelude::*;
verus! {
//@ include xstd.rs
//@ include nom.rs
pub mod errors {
    pub type Result<T = ()> = core::result::Result<T, Error>;
    pub enum Error { Alarm(String), Freq(String), Status(String), TimeTransparency(String), Weekday(String) }
}
pub use errors::*;
pub use properties::*;
pub mod properties {
pub use status::*;
pub use class::*;
pub use time_transparency::*;
pub use recur::*;
//@ include p_status.rs
//@ include p_class.rs
//@ include p_transp.rs
pub mod recur {
    broadcast use crate::xstd::ax_str_ext;
//@ include p_freq.rs
//@ include p_weekday.rs
}
}
pub mod parser {
//@ include p_parser_mod.rs
//@ include p_pdays.rs
}
//@ include p_grammar.rs
}
fn main() {}
