    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::properties::recur::*;
    //@ uses crate::parser
    broadcast use {crate::nom::multi::lemma_nth_anychar, crate::xstd::ax_str_ext, crate::properties::recur::lemma_day_token};
    pub(crate) type NomResult<I, O> = crate::nom::IResult<I, O, crate::nom_language::error::VerboseError<I>>;

    //@ fn crate::parser::is_digit
    //@ ret r
        ensures r == ('0' <= chr <= '9')
    //@ end
    //@ fn crate::parser::digits
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == crate::grammar::front(crate::grammar::Cls::Digit, input@), r->Ok_0.0@ == crate::grammar::back(crate::grammar::Cls::Digit, input@)
    //@ tail
        proof { crate::grammar::lemma_run_is(crate::grammar::Cls::Digit, input@, vx_r->Ok_0.1@.len() as int); }
    //@ end
