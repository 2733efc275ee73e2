    // Content lines: the parsers do what the grammar says.
    use crate::grammar::*;
    use crate::glue::*;

    use crate::xstd::prelude::*;
    broadcast use {crate::grammar::group_grammar, crate::xstd::ax_str_ext};
    //@ props C02,C11
    //@ fn crate::parser::is_alphabetic
    //@ ret r
        ensures r == ('a' <= chr <= 'z' || 'A' <= chr <= 'Z')
    //@ end
    //@ fn crate::parser::is_digit
    //@ ret r
        ensures r == ('0' <= chr <= '9')
    //@ end
    //@ fn crate::parser::is_sep
    //@ ret r
        ensures r == (chr == '-' || chr == '/')
    //@ end
    //@ fn crate::parser::is_alphanumeric
    //@ ret r
        ensures r == cls(Cls::Name, chr)
    //@ end
    //@ fn crate::parser::is_line_ending
    //@ ret r
        ensures r == !cls(Cls::Value, chr)
    //@ end
    //@ fn crate::parser::quote
    //@ ret r
        ensures r == !cls(Cls::Quoted, chr)
    //@ end
    //@ fn crate::parser::key
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == front(Cls::Name, input@), r->Ok_0.0@ == back(Cls::Name, input@)
    //@ tail
        proof { lemma_run_is(Cls::Name, input@, vx_r->Ok_0.1@.len() as int); }
    //@ end
    //@ fn crate::parser::attr
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == g_attr(input@).0, r->Ok_0.0@ == g_attr(input@).1
    //@ head
        proof { reveal(g_attr); }
    //@ closure 0 |c: char| -> (q: bool)
        ensures q == !cls(Cls::Attr, c)
    //@ tail
        proof {
            assert("\r\n "@ =~= fold());
            let t = match after(input@, fold()) { Some(t) => t, None => input@ };
            lemma_run_is(Cls::Attr, t, vx_r->Ok_0.1@.len() as int);
        }
    //@ end
    //@ fn crate::parser::value
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == front(Cls::Value, input@), r->Ok_0.0@ == back(Cls::Value, input@)
    //@ tail
        proof { lemma_run_is(Cls::Value, input@, vx_r->Ok_0.1@.len() as int); }
    //@ end
    //@ fn crate::parser::quoted_param
    //@ ret r
        ensures match r {
            Ok((t, p)) => g_quoted(input@) == Some((param_of(p), t@)),
            Err(e) => e is Error && g_quoted(input@) is None,
        }
    //@ head
        proof { reveal(g_quoted); }
    //@ tail
        proof {
            assert("=\""@ =~= eqq());
            if vx_r is Ok { lemma_run_is(Cls::Quoted, after(back(Cls::Name, input@), eqq())->0, vx_r->Ok_0.1.1@.len() as int); }
        }
    //@ end
    //@ fn crate::parser::param
    //@ ret r
        ensures match r {
            Ok((t, p)) => g_param(input@) == Some((param_of(p), t@)),
            Err(e) => e is Error && g_param(input@) is None,
        }
    //@ head
        proof { reveal(g_param); reveal(g_closed); reveal(g_plain); }
    //@ end
    //@ fn crate::parser::params
    //@ ret r
        ensures r is Ok, r->Ok_0.1.texts() == entries(g_params(input@).0), r->Ok_0.0@ == g_params(input@).1
    //@ head
        broadcast use crate::glue::group_glue;
    //@ closure 0 |acc: BTreeMap<String, String>, kv: (&str, &str)| -> (q: BTreeMap<String, String>)
        ensures q.texts() == acc.texts().insert(kv.0@, kv.1@)
    //@ end
    // a line
    //@ fn crate::parser::content_line
    //@ ret r
        ensures match r {
            Ok((t, c)) => g_line(input@) == Some((line_of(c), t@)),
            Err(e) => e is Error && g_line(input@) is None,
        }
    //@ head
        proof {
            reveal(g_line); reveal(after_eol);
            assert("BEGIN:"@ =~= begin()); assert("END:"@ =~= end());
        }
    //@ closure 0 |p: ((), (), &str, BTreeMap<String, String>, char, Option<&str>, &str)| -> (q: crate::ContentLine)
        ensures q.key@ == p.2@, q.params == p.3, p.5 matches Some(v) ==> q.value@ == v@
    //@ end
    //@ fn crate::parser::content_lines
    //@ ret r
        ensures r is Ok, lines_of(r->Ok_0.1@) == g_lines(input@).0, r->Ok_0.0@ == g_lines(input@).1
    //@ head
        broadcast use crate::glue::group_glue;
    //@ closure 0 |acc: Vec<crate::ContentLine>, value: crate::ContentLine| -> (q: Vec<crate::ContentLine>)
        ensures q@ == acc@.push(value)
    //@ end
