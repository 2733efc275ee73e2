pub mod errors {
    pub type Result<T = ()> = core::result::Result<T, Error>;
    //@ item crate::errors::Error
    impl vstd::std_specs::convert::FromSpecImpl<crate::chrono::ParseError> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: crate::chrono::ParseError) -> Error { Error::Date(v) }
    }
    //@ impl crate::errors | From<chrono::ParseError> for Error
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
}
