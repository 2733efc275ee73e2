use vstd::prelude::*;
verus! {
//@ include xstd.rs
//@ include nom.rs
pub mod content_line {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::content_line::ContentLine
}
pub(crate) use content_line::ContentLine;
//@ include p_grammar.rs
//@ include p_written.rs
//@ include p_glue.rs
pub mod parser {
    use vstd::prelude::*;
    //@ uses crate::parser
    pub(crate) type NomResult<I, O> = crate::nom::IResult<I, O, crate::nom_language::error::VerboseError<I>>;
//@ include p_clines.rs
}
}
fn main() {}
