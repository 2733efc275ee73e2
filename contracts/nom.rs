// Contracts assumed of nom 8 / nom-language (see DESIGN.md, "Assumed contracts").
// Each combinator is a value whose meaning is given by `req`, `ok` and `fails`; only the shapes
// this crate uses are described, all of them the `complete` variants.
pub mod nom_language {
    pub mod error {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(I)]
        pub struct VerboseError<I> { m: core::marker::PhantomData<I> }
        impl<I> VerboseError<I> {
            #[verifier::external_body]
            pub fn from_external_error<E>(input: I, kind: crate::nom::error::ErrorKind, e: E) -> (r: Self) { unimplemented!() }
        }
    }
}
pub mod nom {
    use vstd::prelude::*;
    use core::marker::PhantomData;
    pub enum Err<E> { Incomplete(()), Error(E), Failure(E) }
    pub type IResult<I, O, E> = core::result::Result<(I, O), Err<E>>;
    pub type Res<'a, O> = IResult<&'a str, O, crate::nom_language::error::VerboseError<&'a str>>;
    pub type NErr<'a> = Err<crate::nom_language::error::VerboseError<&'a str>>;

    pub trait Parser<'a, O>: Sized {
        /// what the parser needs of the input
        spec fn req(&self, i: &'a str) -> bool;
        /// it may return `o` and leave `rest`
        spec fn ok(&self, i: &'a str, rest: &'a str, o: O) -> bool;
        /// it may return an (ordinary, recoverable) error
        spec fn fails(&self, i: &'a str) -> bool;
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, O>)
            requires old(self).req(i)
            ensures match r { Ok((rest, o)) => old(self).ok(i, rest, o), Err(e) => e is Error && old(self).fails(i) };
    }
    impl<'a, O, F: Fn(&'a str) -> Res<'a, O>> Parser<'a, O> for F {
        open spec fn req(&self, i: &'a str) -> bool {
            &&& call_requires(*self, (i,))
            &&& forall|e: NErr<'a>| call_ensures(*self, (i,), core::result::Result::Err(e)) ==> #[trigger] (e is Error)
        }
        open spec fn ok(&self, i: &'a str, rest: &'a str, o: O) -> bool { call_ensures(*self, (i,), Ok((rest, o))) }
        open spec fn fails(&self, i: &'a str) -> bool { exists|e: NErr<'a>| call_ensures(*self, (i,), core::result::Result::Err(e)) }
        #[verifier::external_body]
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, O>) { unimplemented!() }
    }
    /// is_alpha and is_dec_digit of a char: the ASCII letters and digits
    pub trait AsChar: Sized {
        spec fn chr(self) -> char;
        fn is_alpha(self) -> (r: bool) ensures r == (('a' <= self.chr() <= 'z') || ('A' <= self.chr() <= 'Z'));
        fn is_dec_digit(self) -> (r: bool) ensures r == ('0' <= self.chr() <= '9');
    }
    impl AsChar for core::primitive::char {
        open spec fn chr(self) -> char { self }
        #[verifier::external_body]
        fn is_alpha(self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body]
        fn is_dec_digit(self) -> (r: bool) { unimplemented!() }
    }
    pub mod error {
        use vstd::prelude::*;
        use super::*;
        pub enum ErrorKind { Fail }
        pub use crate::xstd::Unit as FromExternalError;
        pub struct Context<P> { pub p: P }
        impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for Context<P> {
            open spec fn req(&self, i: &'a str) -> bool { self.p.req(i) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: O) -> bool { self.p.ok(i, rest, o) }
            open spec fn fails(&self, i: &'a str) -> bool { self.p.fails(i) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, O>) { unimplemented!() }
        }
        pub fn context<P>(n: &'static str, p: P) -> (r: Context<P>) ensures r.p == p { Context { p } }
    }
    pub mod bytes { pub mod complete {
        use vstd::prelude::*;
        use crate::nom::*;
        pub struct Tag<'t> { pub t: &'t str }
        impl<'a, 't> Parser<'a, &'a str> for Tag<'t> {
            open spec fn req(&self, i: &'a str) -> bool { true }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: &'a str) -> bool { i@ == o@ + rest@ && o@ == self.t@ && o@ == i@.take(o@.len() as int) && rest@ == i@.skip(o@.len() as int) }
            open spec fn fails(&self, i: &'a str) -> bool { !self.t@.is_prefix_of(i@) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, &'a str>) { unimplemented!() }
        }
        pub fn tag<'t>(t: &'t str) -> (r: Tag<'t>) ensures r.t == t { Tag { t } }
        pub struct TakeWhile<P> { pub p: P, pub sense: bool }
        impl<'a, P: Fn(char) -> bool> Parser<'a, &'a str> for TakeWhile<P> {
            open spec fn req(&self, i: &'a str) -> bool { forall|c: char| call_requires(self.p, (c,)) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: &'a str) -> bool {
                &&& i@ == o@ + rest@ && o@ == i@.take(o@.len() as int) && rest@ == i@.skip(o@.len() as int)
                &&& forall|k: int| 0 <= k < o@.len() ==> call_ensures(self.p, (#[trigger] o@[k],), self.sense)
                &&& rest@.len() > 0 ==> call_ensures(self.p, (rest@[0],), !self.sense)
            }
            open spec fn fails(&self, i: &'a str) -> bool { false }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, &'a str>) { unimplemented!() }
        }
        pub fn take_while<P: Fn(char) -> bool>(p: P) -> (r: TakeWhile<P>) ensures r.p == p, r.sense { TakeWhile { p, sense: true } }
        pub fn take_till<P: Fn(char) -> bool>(p: P) -> (r: TakeWhile<P>) ensures r.p == p, !r.sense { TakeWhile { p, sense: false } }
    } }
    pub mod character { pub mod complete {
        use vstd::prelude::*;
        use crate::nom::*;
        pub struct Char { pub c: char }
        impl<'a> Parser<'a, char> for Char {
            open spec fn req(&self, i: &'a str) -> bool { true }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: char) -> bool { i@ == seq![self.c] + rest@ && o == self.c && i@.len() > 0 && i@[0] == self.c && rest@ == i@.skip(1) }
            open spec fn fails(&self, i: &'a str) -> bool { i@.len() == 0 || i@[0] != self.c }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, char>) { unimplemented!() }
        }
        pub fn char(c: char) -> (r: Char) ensures r.c == c { Char { c } }
        #[verifier::external_body]
        pub fn anychar<'a>(i: &'a str) -> (r: Res<'a, char>)
            ensures match r { Ok((rest, o)) => i@ == seq![o] + rest@, Err(e) => e is Error && i@.len() == 0 }
        { unimplemented!() }
        /// LF or CRLF
        #[verifier::external_body]
        pub fn line_ending<'a>(i: &'a str) -> (r: Res<'a, &'a str>)
            ensures match r {
                Ok((rest, o)) => i@ == o@ + rest@ && (o@ == seq!['\n'] || o@ == seq!['\r', '\n']),
                Err(e) => e is Error && !(i@.len() > 0 && i@[0] == '\n') && !(i@.len() > 1 && i@[0] == '\r' && i@[1] == '\n') }
        { unimplemented!() }
        /// [+-] digits, as long as possible, within the type
        #[verifier::external_body]
        pub fn i8<'a>(i: &'a str) -> (r: Res<'a, core::primitive::i8>)
            ensures match r {
                Ok((rest, o)) => crate::xstd::num::int_prefix(i@, rest@, o as int),
                Err(e) => e is Error && crate::xstd::num::no_int_prefix(i@, -128, 127) }
        { unimplemented!() }
    } }
    pub mod combinator {
        use vstd::prelude::*;
        use super::*;
        pub struct Map<P, G, O> { pub p: P, pub g: G, pub x: PhantomData<O> }
        impl<'a, O, O2, P: Parser<'a, O>, G: Fn(O) -> O2> Parser<'a, O2> for Map<P, G, O> {
            open spec fn req(&self, i: &'a str) -> bool { self.p.req(i) && forall|m: &'a str, o: O| #[trigger] self.p.ok(i, m, o) ==> call_requires(self.g, (o,)) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: O2) -> bool { exists|x: O| #[trigger] self.p.ok(i, rest, x) && call_ensures(self.g, (x,), o) }
            open spec fn fails(&self, i: &'a str) -> bool { self.p.fails(i) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, O2>) { unimplemented!() }
        }
        pub fn map<'a, O, O2, P: Parser<'a, O>, G: Fn(O) -> O2>(p: P, g: G) -> (r: Map<P, G, O>) ensures r.p == p, r.g == g { Map { p, g, x: PhantomData } }
        pub struct MapRes<P, G, O, E> { pub p: P, pub g: G, pub x: PhantomData<(O, E)> }
        impl<'a, O, O2, E, P: Parser<'a, O>, G: Fn(O) -> Result<O2, E>> Parser<'a, O2> for MapRes<P, G, O, E> {
            open spec fn req(&self, i: &'a str) -> bool { self.p.req(i) && forall|m: &'a str, o: O| #[trigger] self.p.ok(i, m, o) ==> call_requires(self.g, (o,)) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: O2) -> bool { exists|x: O| #[trigger] self.p.ok(i, rest, x) && call_ensures(self.g, (x,), Ok(o)) }
            open spec fn fails(&self, i: &'a str) -> bool {
                self.p.fails(i) || exists|m: &'a str, x: O, e: E| #[trigger] self.p.ok(i, m, x) && #[trigger] call_ensures(self.g, (x,), core::result::Result::Err(e))
            }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, O2>) { unimplemented!() }
        }
        pub fn map_res<'a, O, O2, E, P: Parser<'a, O>, G: Fn(O) -> Result<O2, E>>(p: P, g: G) -> (r: MapRes<P, G, O, E>) ensures r.p == p, r.g == g { MapRes { p, g, x: PhantomData } }
        pub struct Opt<P> { pub p: P }
        impl<'a, O, P: Parser<'a, O>> Parser<'a, Option<O>> for Opt<P> {
            open spec fn req(&self, i: &'a str) -> bool { self.p.req(i) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: Option<O>) -> bool {
                match o { Some(x) => self.p.ok(i, rest, x), None => rest == i && self.p.fails(i) }
            }
            open spec fn fails(&self, i: &'a str) -> bool { false }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, Option<O>>) { unimplemented!() }
        }
        pub fn opt<P>(p: P) -> (r: Opt<P>) ensures r.p == p { Opt { p } }
        pub struct AllConsuming<P> { pub p: P }
        impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for AllConsuming<P> {
            open spec fn req(&self, i: &'a str) -> bool { self.p.req(i) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: O) -> bool { self.p.ok(i, rest, o) && rest@.len() == 0 }
            open spec fn fails(&self, i: &'a str) -> bool { self.p.fails(i) || exists|m: &'a str, o: O| #[trigger] self.p.ok(i, m, o) && m@.len() > 0 }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, O>) { unimplemented!() }
        }
        pub fn all_consuming<P>(p: P) -> (r: AllConsuming<P>) ensures r.p == p { AllConsuming { p } }
        pub struct Not<P, O> { pub p: P, pub x: PhantomData<O> }
        impl<'a, O, P: Parser<'a, O>> Parser<'a, ()> for Not<P, O> {
            open spec fn req(&self, i: &'a str) -> bool { self.p.req(i) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: ()) -> bool { rest == i && self.p.fails(i) }
            open spec fn fails(&self, i: &'a str) -> bool { exists|m: &'a str, x: O| self.p.ok(i, m, x) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, ()>) { unimplemented!() }
        }
        pub fn not<'a, O, P: Parser<'a, O>>(p: P) -> (r: Not<P, O>) ensures r.p == p { Not { p, x: PhantomData } }
    }
    // sequences
    impl<'a, OA, OB, A: Parser<'a, OA>, B: Parser<'a, OB>> Parser<'a, (OA, OB)> for (A, B) {
        open spec fn req(&self, i: &'a str) -> bool { self.0.req(i) && forall|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) ==> self.1.req(m) }
        open spec fn ok(&self, i: &'a str, rest: &'a str, o: (OA, OB)) -> bool { exists|m: &'a str| #[trigger] self.0.ok(i, m, o.0) && self.1.ok(m, rest, o.1) }
        open spec fn fails(&self, i: &'a str) -> bool { self.0.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) && self.1.fails(m) }
        #[verifier::external_body]
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, (OA, OB)>) { unimplemented!() }
    }
    // longer sequences are nested ones
    impl<'a, OA, OB, OC, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>> Parser<'a, (OA, OB, OC)> for (A, B, C) {
        open spec fn req(&self, i: &'a str) -> bool { self.0.req(i) && forall|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) ==> (self.1, self.2).req(m) }
        open spec fn ok(&self, i: &'a str, rest: &'a str, o: (OA, OB, OC)) -> bool { exists|m: &'a str| #[trigger] self.0.ok(i, m, o.0) && (self.1, self.2).ok(m, rest, (o.1, o.2)) }
        open spec fn fails(&self, i: &'a str) -> bool { self.0.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) && (self.1, self.2).fails(m) }
        #[verifier::external_body]
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, (OA, OB, OC)>) { unimplemented!() }
    }
    impl<'a, OA, OB, OC, OD, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>> Parser<'a, (OA, OB, OC, OD)> for (A, B, C, D) {
        open spec fn req(&self, i: &'a str) -> bool { self.0.req(i) && forall|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) ==> (self.1, self.2, self.3).req(m) }
        open spec fn ok(&self, i: &'a str, rest: &'a str, o: (OA, OB, OC, OD)) -> bool { exists|m: &'a str| #[trigger] self.0.ok(i, m, o.0) && (self.1, self.2, self.3).ok(m, rest, (o.1, o.2, o.3)) }
        open spec fn fails(&self, i: &'a str) -> bool { self.0.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) && (self.1, self.2, self.3).fails(m) }
        #[verifier::external_body]
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, (OA, OB, OC, OD)>) { unimplemented!() }
    }
    impl<'a, OA, OB, OC, OD, OE, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>> Parser<'a, (OA, OB, OC, OD, OE)> for (A, B, C, D, E) {
        open spec fn req(&self, i: &'a str) -> bool { self.0.req(i) && forall|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) ==> (self.1, self.2, self.3, self.4).req(m) }
        open spec fn ok(&self, i: &'a str, rest: &'a str, o: (OA, OB, OC, OD, OE)) -> bool { exists|m: &'a str| #[trigger] self.0.ok(i, m, o.0) && (self.1, self.2, self.3, self.4).ok(m, rest, (o.1, o.2, o.3, o.4)) }
        open spec fn fails(&self, i: &'a str) -> bool { self.0.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) && (self.1, self.2, self.3, self.4).fails(m) }
        #[verifier::external_body]
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, (OA, OB, OC, OD, OE)>) { unimplemented!() }
    }
    impl<'a, OA, OB, OC, OD, OE, OF, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>> Parser<'a, (OA, OB, OC, OD, OE, OF)> for (A, B, C, D, E, F) {
        open spec fn req(&self, i: &'a str) -> bool { self.0.req(i) && forall|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) ==> (self.1, self.2, self.3, self.4, self.5).req(m) }
        open spec fn ok(&self, i: &'a str, rest: &'a str, o: (OA, OB, OC, OD, OE, OF)) -> bool { exists|m: &'a str| #[trigger] self.0.ok(i, m, o.0) && (self.1, self.2, self.3, self.4, self.5).ok(m, rest, (o.1, o.2, o.3, o.4, o.5)) }
        open spec fn fails(&self, i: &'a str) -> bool { self.0.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) && (self.1, self.2, self.3, self.4, self.5).fails(m) }
        #[verifier::external_body]
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, (OA, OB, OC, OD, OE, OF)>) { unimplemented!() }
    }
    impl<'a, OA, OB, OC, OD, OE, OF, OG, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG)> for (A, B, C, D, E, F, G) {
        open spec fn req(&self, i: &'a str) -> bool { self.0.req(i) && forall|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) ==> (self.1, self.2, self.3, self.4, self.5, self.6).req(m) }
        open spec fn ok(&self, i: &'a str, rest: &'a str, o: (OA, OB, OC, OD, OE, OF, OG)) -> bool { exists|m: &'a str| #[trigger] self.0.ok(i, m, o.0) && (self.1, self.2, self.3, self.4, self.5, self.6).ok(m, rest, (o.1, o.2, o.3, o.4, o.5, o.6)) }
        open spec fn fails(&self, i: &'a str) -> bool { self.0.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.0.ok(i, m, o) && (self.1, self.2, self.3, self.4, self.5, self.6).fails(m) }
        #[verifier::external_body]
        fn parse(&mut self, i: &'a str) -> (r: Res<'a, (OA, OB, OC, OD, OE, OF, OG)>) { unimplemented!() }
    }
    pub mod number {
        use vstd::prelude::*;
        /// what the decimal number in front of i stands for: not described further
        pub uninterp spec fn float_at(i: Seq<char>, rest: Seq<char>, v: f32) -> bool;
        pub uninterp spec fn no_float(i: Seq<char>) -> bool;
        pub mod complete {
            use vstd::prelude::*;
            #[verifier::external_body]
            pub fn float(i: &str) -> (r: crate::nom::Res<'_, f32>)
                ensures match r { Ok((rest, v)) => super::float_at(i@, rest@, v), Err(e) => e is Error && super::no_float(i@) }
            { unimplemented!() }
        }
    }
    pub mod sequence {
        use vstd::prelude::*;
        use super::*;
        pub fn pair<A, B>(a: A, b: B) -> (r: (A, B)) ensures r.0 == a, r.1 == b { (a, b) }
        pub struct Preceded<A, B, OA> { pub a: A, pub b: B, pub x: PhantomData<OA> }
        impl<'a, OA, OB, A: Parser<'a, OA>, B: Parser<'a, OB>> Parser<'a, OB> for Preceded<A, B, OA> {
            open spec fn req(&self, i: &'a str) -> bool { self.a.req(i) && forall|m: &'a str, o: OA| #[trigger] self.a.ok(i, m, o) ==> self.b.req(m) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: OB) -> bool { exists|m: &'a str, oa: OA| #[trigger] self.a.ok(i, m, oa) && self.b.ok(m, rest, o) }
            open spec fn fails(&self, i: &'a str) -> bool { self.a.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.a.ok(i, m, o) && self.b.fails(m) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, OB>) { unimplemented!() }
        }
        pub fn preceded<'a, OA, OB, A: Parser<'a, OA>, B: Parser<'a, OB>>(a: A, b: B) -> (r: Preceded<A, B, OA>) ensures r.a == a, r.b == b { Preceded { a, b, x: PhantomData } }
        pub struct Terminated<A, B, OB> { pub a: A, pub b: B, pub x: PhantomData<OB> }
        impl<'a, OA, OB, A: Parser<'a, OA>, B: Parser<'a, OB>> Parser<'a, OA> for Terminated<A, B, OB> {
            open spec fn req(&self, i: &'a str) -> bool { self.a.req(i) && forall|m: &'a str, o: OA| #[trigger] self.a.ok(i, m, o) ==> self.b.req(m) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: OA) -> bool { exists|m: &'a str, ob: OB| #[trigger] self.a.ok(i, m, o) && #[trigger] self.b.ok(m, rest, ob) }
            open spec fn fails(&self, i: &'a str) -> bool { self.a.fails(i) || exists|m: &'a str, o: OA| #[trigger] self.a.ok(i, m, o) && self.b.fails(m) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, OA>) { unimplemented!() }
        }
        pub fn terminated<'a, OA, OB, A: Parser<'a, OA>, B: Parser<'a, OB>>(a: A, b: B) -> (r: Terminated<A, B, OB>) ensures r.a == a, r.b == b { Terminated { a, b, x: PhantomData } }
        pub fn delimited<'a, OA, OB, OC, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>>(a: A, b: B, c: C)
            -> (r: Preceded<A, Terminated<B, C, OC>, OA>) ensures r.a == a, r.b.a == b, r.b.b == c
        { Preceded { a, b: Terminated { a: b, b: c, x: PhantomData }, x: PhantomData } }
        pub struct SepPair<A, S, B, OS> { pub a: A, pub s: S, pub b: B, pub x: PhantomData<OS> }
        impl<'a, OA, OS, OB, A: Parser<'a, OA>, S: Parser<'a, OS>, B: Parser<'a, OB>> Parser<'a, (OA, OB)> for SepPair<A, S, B, OS> {
            open spec fn req(&self, i: &'a str) -> bool {
                &&& self.a.req(i)
                &&& forall|m: &'a str, o: OA| #[trigger] self.a.ok(i, m, o) ==> self.s.req(m)
                &&& forall|m: &'a str, o: OA, n: &'a str, q: OS| #[trigger] self.a.ok(i, m, o) && #[trigger] self.s.ok(m, n, q) ==> self.b.req(n)
            }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: (OA, OB)) -> bool {
                exists|m: &'a str, n: &'a str, q: OS| #[trigger] self.a.ok(i, m, o.0) && #[trigger] self.s.ok(m, n, q) && self.b.ok(n, rest, o.1)
            }
            open spec fn fails(&self, i: &'a str) -> bool {
                ||| self.a.fails(i)
                ||| exists|m: &'a str, o: OA| #[trigger] self.a.ok(i, m, o) && self.s.fails(m)
                ||| exists|m: &'a str, o: OA, n: &'a str, q: OS| #[trigger] self.a.ok(i, m, o) && #[trigger] self.s.ok(m, n, q) && self.b.fails(n)
            }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, (OA, OB)>) { unimplemented!() }
        }
        pub fn separated_pair<'a, OA, OS, OB, A: Parser<'a, OA>, S: Parser<'a, OS>, B: Parser<'a, OB>>(a: A, s: S, b: B) -> (r: SepPair<A, S, B, OS>)
            ensures r.a == a, r.s == s, r.b == b { SepPair { a, s, b, x: PhantomData } }
    }
    pub mod branch {
        use vstd::prelude::*;
        use super::*;
        pub struct Alt<L> { pub l: L }
        pub fn alt<L>(l: L) -> (r: Alt<L>) ensures r.l == l { Alt { l } }
        impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>> Parser<'a, O> for Alt<(A, B)> {
            open spec fn req(&self, i: &'a str) -> bool { self.l.0.req(i) && (self.l.0.fails(i) ==> self.l.1.req(i)) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: O) -> bool { self.l.0.ok(i, rest, o) || (self.l.0.fails(i) && self.l.1.ok(i, rest, o)) }
            open spec fn fails(&self, i: &'a str) -> bool { self.l.0.fails(i) && self.l.1.fails(i) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, O>) { unimplemented!() }
        }
        impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F)> {
            open spec fn req(&self, i: &'a str) -> bool { self.l.0.req(i) && (self.l.0.fails(i) ==> self.l.1.req(i)) && (self.l.0.fails(i) && self.l.1.fails(i) ==> self.l.2.req(i)) && (self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.fails(i) ==> self.l.3.req(i)) && (self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.fails(i) && self.l.3.fails(i) ==> self.l.4.req(i)) && (self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.fails(i) && self.l.3.fails(i) && self.l.4.fails(i) ==> self.l.5.req(i)) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: O) -> bool { (self.l.0.ok(i, rest, o)) || (self.l.0.fails(i) && self.l.1.ok(i, rest, o)) || (self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.ok(i, rest, o)) || (self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.fails(i) && self.l.3.ok(i, rest, o)) || (self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.fails(i) && self.l.3.fails(i) && self.l.4.ok(i, rest, o)) || (self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.fails(i) && self.l.3.fails(i) && self.l.4.fails(i) && self.l.5.ok(i, rest, o)) }
            open spec fn fails(&self, i: &'a str) -> bool { self.l.0.fails(i) && self.l.1.fails(i) && self.l.2.fails(i) && self.l.3.fails(i) && self.l.4.fails(i) && self.l.5.fails(i) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, O>) { unimplemented!() }
        }
    }
    pub mod multi {
        use vstd::prelude::*;
        use super::*;
        /// outs is what the parser yields applied again and again from i to rest, consuming
        /// something each time
        pub open spec fn chain<'a, O, P: Parser<'a, O>>(p: P, i: &'a str, rest: &'a str, outs: Seq<O>) -> bool
            decreases outs.len()
        {
            if outs.len() == 0 { rest == i } else {
                exists|m: &'a str| #[trigger] p.ok(i, m, outs[0]) && m@ != i@ && chain(p, m, rest, outs.skip(1))
            }
        }
        pub struct Count<P> { pub p: P, pub n: usize }
        impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Count<P> {
            open spec fn req(&self, i: &'a str) -> bool { forall|m: &'a str| self.p.req(m) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: Vec<O>) -> bool { o@.len() == self.n && nth(self.p, i, rest, o@) }
            open spec fn fails(&self, i: &'a str) -> bool { exists|m: &'a str, o: Seq<O>| o.len() < self.n && #[trigger] nth(self.p, i, m, o) && self.p.fails(m) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, Vec<O>>) { unimplemented!() }
        }
        pub open spec fn nth<'a, O, P: Parser<'a, O>>(p: P, i: &'a str, rest: &'a str, outs: Seq<O>) -> bool
            decreases outs.len()
        {
            if outs.len() == 0 { rest == i } else {
                exists|m: &'a str| #[trigger] p.ok(i, m, outs[0]) && nth(p, m, rest, outs.skip(1))
            }
        }
        /// a parser applied as often as it succeeds; one that succeeds without consuming is an error
        pub open spec fn stuck<'a, O, P: Parser<'a, O>>(p: P, i: &'a str) -> bool {
            exists|m: &'a str, rest: &'a str, outs: Seq<O>, o: O| #[trigger] chain(p, i, m, outs) && #[trigger] p.ok(m, rest, o) && m@ == rest@
        }
        pub struct Many0<P> { pub p: P }
        impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Many0<P> {
            open spec fn req(&self, i: &'a str) -> bool { forall|m: &'a str| self.p.req(m) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: Vec<O>) -> bool { chain(self.p, i, rest, o@) && self.p.fails(rest) }
            open spec fn fails(&self, i: &'a str) -> bool { stuck(self.p, i) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, Vec<O>>) { unimplemented!() }
        }
        pub fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
        pub struct Many1<P> { pub p: P }
        impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Many1<P> {
            open spec fn req(&self, i: &'a str) -> bool { forall|m: &'a str| self.p.req(m) }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: Vec<O>) -> bool { o@.len() > 0 && chain(self.p, i, rest, o@) && self.p.fails(rest) }
            open spec fn fails(&self, i: &'a str) -> bool { self.p.fails(i) || stuck(self.p, i) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, Vec<O>>) { unimplemented!() }
        }
        pub fn many1<P>(p: P) -> (r: Many1<P>) ensures r.p == p { Many1 { p } }
        /// the fold of outs from an initial value through f
        pub open spec fn folded<O, R, I: Fn() -> R, G: Fn(R, O) -> R>(init: I, g: G, outs: Seq<O>, r: R) -> bool
            decreases outs.len()
        {
            if outs.len() == 0 { call_ensures(init, (), r) } else {
                exists|q: R| folded(init, g, outs.drop_last(), q) && #[trigger] call_ensures(g, (q, outs.last()), r)
            }
        }
        pub struct FoldMany0<P, I, G, O> { pub p: P, pub init: I, pub g: G, pub x: PhantomData<O> }
        impl<'a, O, R, P: Parser<'a, O>, I: Fn() -> R, G: Fn(R, O) -> R> Parser<'a, R> for FoldMany0<P, I, G, O> {
            open spec fn req(&self, i: &'a str) -> bool {
                &&& forall|m: &'a str| self.p.req(m)
                &&& call_requires(self.init, ())
                &&& forall|q: R, o: O| call_requires(self.g, (q, o))
            }
            open spec fn ok(&self, i: &'a str, rest: &'a str, o: R) -> bool {
                exists|outs: Seq<O>| #[trigger] chain(self.p, i, rest, outs) && self.p.fails(rest) && folded(self.init, self.g, outs, o)
            }
            open spec fn fails(&self, i: &'a str) -> bool { stuck(self.p, i) }
            #[verifier::external_body]
            fn parse(&mut self, i: &'a str) -> (r: Res<'a, R>) { unimplemented!() }
        }
        pub fn fold_many0<'a, O, R, P: Parser<'a, O>, I: Fn() -> R, G: Fn(R, O) -> R>(p: P, init: I, g: G) -> (r: FoldMany0<P, I, G, O>)
            ensures r.p == p, r.init == init, r.g == g { FoldMany0 { p, init, g, x: PhantomData } }
        pub broadcast proof fn lemma_nth_anychar<'a>(i: &'a str, rest: &'a str, outs: Seq<char>)
            requires #[trigger] nth(crate::nom::character::complete::anychar, i, rest, outs)
            ensures i@ == outs + rest@
            decreases outs.len()
        {
            if outs.len() == 0 { assert(outs + rest@ =~= rest@); } else {
                let p = crate::nom::character::complete::anychar;
                let m = choose|m: &'a str| #[trigger] Parser::<'a, char>::ok(&p, i, m, outs[0]) && nth(p, m, rest, outs.skip(1));
                lemma_nth_anychar(m, rest, outs.skip(1));
                assert(outs =~= seq![outs[0]] + outs.skip(1));
                assert(i@ =~= outs + rest@);
            }
        }
        pub fn count<P>(p: P, n: usize) -> (r: Count<P>) ensures r.p == p, r.n == n { Count { p, n } }
    }
}
