pub mod errors_nom {
    use vstd::prelude::*;
    use crate::errors::Error;
    use crate::xstd::prelude::*;
    use vstd::std_specs::convert::*;
    impl FromSpecImpl<crate::xstd::num::ParseIntError> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: crate::xstd::num::ParseIntError) -> Error { arbitrary() }
    }
    //@ impl crate::errors | From<std::num::ParseIntError> for Error
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    impl<I: core::fmt::Debug> FromSpecImpl<crate::nom::Err<crate::nom_language::error::VerboseError<I>>> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: crate::nom::Err<crate::nom_language::error::VerboseError<I>>) -> Error { arbitrary() }
    }
    //@ impl crate::errors | From<nom::Err<nom_language::error::VerboseError<I>>> for Error
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
}
