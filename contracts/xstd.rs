// Contracts assumed of the standard library (see DESIGN.md, "Assumed contracts").
pub mod xstd {
    use vstd::prelude::*;

    // ---- strings -------------------------------------------------------------------------
    /// A str value is determined by its characters.
    pub broadcast axiom fn ax_str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;

    /// == on references to strings compares their characters.
    pub broadcast axiom fn ax_string_eq(a: &String, b: &String)
        ensures <&String as vstd::std_specs::cmp::PartialEqSpec<&String>>::obeys_eq_spec(), #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
    pub proof fn lemma_string_eq()
        ensures <Option<&String> as vstd::std_specs::cmp::PartialEqSpec<Option<&String>>>::obeys_eq_spec(),
            forall|a: Option<&String>, b: Option<&String>| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) <==> (a is None && b is None) || (a is Some && b is Some && a.unwrap()@ == b.unwrap()@)
    {
        broadcast use ax_string_eq;
        ax_string_eq(&arbitrary::<String>(), &arbitrary::<String>());
        assert(forall|a: &String, b: &String| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@));
    }
    pub mod prelude {
        pub use crate::xstd::string::{ToString, AsRef};
        pub use crate::xstd::strings::{VxText, VxPat, VxJoin};
        pub use crate::xstd::fmt::Display;
        pub use crate::xstd::str::*;
        pub use crate::xstd::{VxSeq, VxCollect, VxChar};
        pub use crate::xstd::ax_str_ext;
    }
    pub struct Unit;
    pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
    pub mod collections {
        use vstd::prelude::*;
        /// A BTreeMap is the list of its entries, in key order.
        pub struct BTreeMap<K, V> { pub entries: Vec<(K, V)> }
        impl<K, V> BTreeMap<K, V> {
            pub open spec fn view(&self) -> Seq<(K, V)> { self.entries@ }
            #[verifier::external_body]
            pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_iter(&self) -> (r: &Vec<(K, V)>) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body]
            pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        }
        impl<K, V> Clone for BTreeMap<K, V> {
            #[verifier::external_body]
            fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
        }
        /// the map the entries stand for
        pub open spec fn kv<V>(es: Seq<(String, V)>) -> Map<Seq<char>, V> decreases es.len() {
            if es.len() == 0 { Map::empty() } else { kv(es.drop_last()).insert(es.last().0@, es.last().1) }
        }
        impl BTreeMap<String, String> {
            /// the texts under each name
            pub open spec fn texts(&self) -> Map<Seq<char>, Seq<char>> { self.map().map_values(|v: String| v@) }
        }
        impl<V> BTreeMap<String, V> {
            pub open spec fn map(&self) -> Map<Seq<char>, V> { kv(self@) }
            #[verifier::external_body]
            pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
                ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
            #[verifier::external_body]
            pub fn get(&self, k: &str) -> (r: Option<&V>)
                ensures match r { Some(v) => self.map().contains_key(k@) && *v == self.map()[k@], None => !self.map().contains_key(k@) } { unimplemented!() }
        }
    }
    pub assume_specification<'a> [<String as PartialEq<&'a str>>::eq](s: &String, o: &&str) -> (r: bool) ensures r == (s@ == o@);
    pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose](o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
        ensures match o { None => r == Ok::<Option<T>, E>(None), Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e) };
    pub assume_specification<T> [<Option<T> as core::convert::From<T>>::from](t: T) -> (r: Option<T>) ensures r == Some(t);
    pub assume_specification [<i64 as core::convert::From<u8>>::from](x: u8) -> (r: i64) ensures r == x;
    pub assume_specification [i32::rem_euclid](a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == (a as int) % (b as int);
    pub assume_specification [i32::div_euclid](a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == (a as int) / (b as int);
    pub mod ops { pub use core::ops::*; }
    pub mod convert { pub use core::convert::*; }
    pub mod cmp {
        use vstd::prelude::*;
        pub use core::cmp::{Ord, PartialOrd, PartialEq, Eq, Ordering};
        pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
    }
    /// octets of a character / of a text in UTF-8
    pub open spec fn clen(c: char) -> nat { if (c as u32) <= 0x7f { 1 } else if (c as u32) <= 0x7ff { 2 } else if (c as u32) <= 0xffff { 3 } else { 4 } }
    pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
    pub open spec fn replaced(s: Seq<char>, p: Seq<char>, to: Seq<char>) -> Seq<char> decreases s.len() {
        if s.len() == 0 || p.len() == 0 { s }
        else if p.is_prefix_of(s) { to + replaced(s.skip(p.len() as int), p, to) }
        else { seq![s[0]] + replaced(s.skip(1), p, to) }
    }
    pub open spec fn has(s: Seq<char>, p: Seq<char>) -> bool { exists|k: int| 0 <= k <= s.len() && p.is_prefix_of(#[trigger] s.skip(k)) }
    pub broadcast proof fn lemma_suffix_char(s: Seq<char>, c: char)
        ensures (#[trigger] seq![c].is_suffix_of(s)) == (s.len() > 0 && s.last() == c)
    {
        if s.len() > 0 && s.last() == c { assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![c]); }
        if seq![c].is_suffix_of(s) { assert(s.subrange(s.len() - 1, s.len() as int)[0] == c); }
    }
    pub broadcast proof fn lemma_prefix_char(s: Seq<char>, c: char)
        ensures (#[trigger] seq![c].is_prefix_of(s)) == (s.len() > 0 && s[0] == c)
    {
        if s.len() > 0 && s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); }
        if seq![c].is_prefix_of(s) { assert(s.subrange(0, 1)[0] == c); }
    }
    /// without the cs at its end
    pub open spec fn trimmed(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
        if s.len() > 0 && s.last() == c { trimmed(s.drop_last(), c) } else { s }
    }
    pub open spec fn joined(v: Seq<&str>, sep: Seq<char>) -> Seq<char> decreases v.len() {
        if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { joined(v.drop_last(), sep) + sep + v.last()@ }
    }
    pub mod strings {
        use vstd::prelude::*;
        use crate::xstd::{blen, replaced, has, joined};
        pub trait VxPat {
            spec fn pat(&self) -> Seq<char>;
        }
        impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
        impl<'a> VxPat for &'a str { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
        pub trait VxText {
            spec fn txt(&self) -> Seq<char>;
            fn vx_len(&self) -> (r: usize) ensures r == blen(self.txt());
            fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) requires p.pat().len() > 0 ensures r@ == replaced(self.txt(), p.pat(), to@);
            fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == has(self.txt(), p.pat());
            fn vx_is_char_boundary(&self, mid: usize) -> (r: bool)
                ensures r == (exists|k: int| 0 <= k <= self.txt().len() && #[trigger] blen(self.txt().take(k)) == mid);
            fn vx_split_at(&self, mid: usize) -> (r: (&str, &str))
                requires exists|k: int| 0 <= k <= self.txt().len() && #[trigger] blen(self.txt().take(k)) == mid
                ensures r.0@ + r.1@ == self.txt(), blen(r.0@) == mid;
            fn vx_split<P: VxPat>(&self, p: P) -> (r: crate::xstd::VxItems<&str>)
                requires p.pat().len() > 0
                ensures r@.len() > 0, joined(r@, p.pat()) == self.txt(), forall|k: int| 0 <= k < r@.len() ==> has((#[trigger] r@[k])@, p.pat()) == false;
            fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
                requires p.pat().len() == 1
                ensures match r { Some((a, b)) => self.txt() == a@ + p.pat() + b@ && has(a@, p.pat()) == false, None => has(self.txt(), p.pat()) == false };
            fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_prefix_of(self.txt());
            fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_suffix_of(self.txt());
            fn vx_chars(&self) -> (r: crate::xstd::VxItems<char>) ensures r@ == self.txt();
            fn vx_trim_end_matches(&self, c: char) -> (r: &str) ensures r@ == crate::xstd::trimmed(self.txt(), c);
        }
        impl VxText for str {
            open spec fn txt(&self) -> Seq<char> { self@ }
            #[verifier::external_body]
            fn vx_len(&self) -> (r: usize) { unimplemented!() }
            #[verifier::external_body]
            fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
            #[verifier::external_body]
            fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_is_char_boundary(&self, mid: usize) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_split_at(&self, mid: usize) -> (r: (&str, &str)) { unimplemented!() }
            #[verifier::external_body]
            fn vx_split<P: VxPat>(&self, p: P) -> (r: crate::xstd::VxItems<&str>) { unimplemented!() }
            #[verifier::external_body]
            fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
            #[verifier::external_body]
            fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_chars(&self) -> (r: crate::xstd::VxItems<char>) { unimplemented!() }
            #[verifier::external_body]
            fn vx_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
        }
        impl VxText for String {
            open spec fn txt(&self) -> Seq<char> { self@ }
            #[verifier::external_body]
            fn vx_len(&self) -> (r: usize) { unimplemented!() }
            #[verifier::external_body]
            fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
            #[verifier::external_body]
            fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_is_char_boundary(&self, mid: usize) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_split_at(&self, mid: usize) -> (r: (&str, &str)) { unimplemented!() }
            #[verifier::external_body]
            fn vx_split<P: VxPat>(&self, p: P) -> (r: crate::xstd::VxItems<&str>) { unimplemented!() }
            #[verifier::external_body]
            fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
            #[verifier::external_body]
            fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
            #[verifier::external_body]
            fn vx_chars(&self) -> (r: crate::xstd::VxItems<char>) { unimplemented!() }
            #[verifier::external_body]
            fn vx_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
        }
        pub trait VxJoin { fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == self.joined_by(sep@); spec fn joined_by(&self, sep: Seq<char>) -> Seq<char>; }
        impl<'a> VxJoin for Vec<&'a str> {
            open spec fn joined_by(&self, sep: Seq<char>) -> Seq<char> { joined(self@, sep) }
            #[verifier::external_body]
            fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
        }
        impl VxJoin for Vec<String> {
            open spec fn joined_by(&self, sep: Seq<char>) -> Seq<char> { crate::xstd::strings_joined(self@, sep) }
            #[verifier::external_body]
            fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
        }
    }
    pub open spec fn strings_joined(v: Seq<String>, sep: Seq<char>) -> Seq<char> decreases v.len() {
        if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { strings_joined(v.drop_last(), sep) + sep + v.last()@ }
    }
    /// What iter() of a slice yields: references to these values, in order.  The adapters take
    /// predicates without state.
    pub struct VxIter<'a, T> { pub v: Ghost<Seq<T>>, pub m: core::marker::PhantomData<&'a T> }
    pub struct VxItems<T> { pub v: Ghost<Seq<T>> }
    impl<'a, T> VxIter<'a, T> {
        pub open spec fn view(&self) -> Seq<T> { self.v@ }
        #[verifier::external_body]
        pub fn any<P: Fn(&'a T) -> bool>(&mut self, p: P) -> (r: bool)
            requires forall|k: int| 0 <= k < old(self)@.len() ==> #[trigger] call_requires(p, (&old(self)@[k],))
            ensures r ==> exists|k: int| 0 <= k < old(self)@.len() && call_ensures(p, (&#[trigger] old(self)@[k],), true),
                !r ==> forall|k: int| 0 <= k < old(self)@.len() ==> call_ensures(p, (&#[trigger] old(self)@[k],), false)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn all<P: Fn(&'a T) -> bool>(&mut self, p: P) -> (r: bool)
            requires forall|k: int| 0 <= k < old(self)@.len() ==> #[trigger] call_requires(p, (&old(self)@[k],))
            ensures !r ==> exists|k: int| 0 <= k < old(self)@.len() && call_ensures(p, (&#[trigger] old(self)@[k],), false),
                r ==> forall|k: int| 0 <= k < old(self)@.len() ==> call_ensures(p, (&#[trigger] old(self)@[k],), true)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_filter<P: Fn(&&'a T) -> bool>(self, p: P) -> (r: VxFiltered<'a, T, P>)
            requires forall|x: T| #![trigger call_requires(p, (&&x,))] call_requires(p, (&&x,))
            ensures r.v@ == self@, r.p == p
        { unimplemented!() }
        /// for predicates with one answer per value
        #[verifier::external_body]
        pub fn filter<P: Fn(&&'a T) -> bool>(self, p: P) -> (r: VxIter<'a, T>)
            requires forall|x: T| #![trigger call_requires(p, (&&x,))] call_requires(p, (&&x,)) && !(call_ensures(p, (&&x,), true) && call_ensures(p, (&&x,), false))
            ensures r@ == self@.filter(|x: T| call_ensures(p, (&&x,), true))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn last(self) -> (r: Option<&'a T>)
            ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@.last())
        { unimplemented!() }
        #[verifier::external_body]
        pub fn find<P: Fn(&&'a T) -> bool>(&mut self, p: P) -> (r: Option<&'a T>)
            requires forall|x: T| #[trigger] call_requires(p, (&&x,))
            ensures match r {
                Some(x) => exists|k: int| 0 <= k < old(self)@.len() && call_ensures(p, (&&#[trigger] old(self)@[k],), true) && *x == old(self)@[k]
                    && forall|j: int| 0 <= j < k ==> call_ensures(p, (&&#[trigger] old(self)@[j],), false),
                None => forall|k: int| 0 <= k < old(self)@.len() ==> call_ensures(p, (&&#[trigger] old(self)@[k],), false),
            }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn map<B, F: Fn(&'a T) -> B>(self, f: F) -> (r: VxItems<B>)
            requires forall|k: int| 0 <= k < self@.len() ==> #[trigger] call_requires(f, (&self@[k],))
            ensures r@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> call_ensures(f, (&self@[k],), #[trigger] r@[k])
        { unimplemented!() }
    }
    /// the elements p accepts, in order
    pub struct VxFiltered<'a, T, P> { pub v: Ghost<Seq<T>>, pub p: P, pub m: core::marker::PhantomData<&'a T> }
    impl<'a, T, P: Fn(&&'a T) -> bool> VxFiltered<'a, T, P> {
        #[verifier::external_body]
        pub fn last(self) -> (r: Option<&'a T>)
            ensures match r {
                Some(x) => exists|k: int| 0 <= k < self.v@.len() && call_ensures(self.p, (&&#[trigger] self.v@[k],), true) && *x == self.v@[k]
                    && forall|j: int| k < j < self.v@.len() ==> call_ensures(self.p, (&&#[trigger] self.v@[j],), false),
                None => forall|j: int| 0 <= j < self.v@.len() ==> call_ensures(self.p, (&&#[trigger] self.v@[j],), false),
            }
        { unimplemented!() }
    }
    impl<T> VxItems<T> {
        pub open spec fn view(&self) -> Seq<T> { self.v@ }
        #[verifier::external_body]
        pub fn collect<C: VxCollect<T>>(self) -> (r: C)
            ensures C::collected(self@, r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: VxItems<B>)
            requires forall|k: int| 0 <= k < self@.len() ==> #[trigger] call_requires(f, (self@[k],))
            ensures r@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> call_ensures(f, (self@[k],), #[trigger] r@[k])
        { unimplemented!() }
    }
    /// The items still to come.
    pub struct VxPeek<T> { pub v: Ghost<Seq<T>> }
    impl<T> VxItems<T> {
        #[verifier::external_body]
        pub fn peekable(self) -> (r: VxPeek<T>) ensures r@ == self@ { unimplemented!() }
    }
    impl<T> VxPeek<T> {
        pub open spec fn view(&self) -> Seq<T> { self.v@ }
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn next_if<F: FnOnce(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
            requires old(self)@.len() > 0 ==> call_requires(f, (&old(self)@[0],))
            ensures match r {
                Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && call_ensures(f, (&old(self)@[0],), true) && final(self)@ == old(self)@.skip(1),
                None => (old(self)@.len() > 0 ==> call_ensures(f, (&old(self)@[0],), false)) && final(self)@ == old(self)@,
            }
        { unimplemented!() }
    }
    pub trait VxChar { spec fn chr(&self) -> char; fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == crate::xstd::num::is_digit(self.chr()); }
    impl VxChar for char {
        open spec fn chr(&self) -> char { *self }
        #[verifier::external_body]
        fn vx_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    }
    pub trait VxCollect<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; }
    impl<T> VxCollect<T> for Vec<T> { open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s } }
    impl<T, E> VxCollect<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
        /// all of them, or the first error
        open spec fn collected(s: Seq<core::result::Result<T, E>>, r: Self) -> bool {
            match r {
                Ok(v) => v@.len() == s.len() && forall|k: int| #![trigger s[k]] #![trigger v@[k]] 0 <= k < s.len() ==> s[k] == Ok::<T, E>(v@[k]),
                Err(e) => exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == Err::<T, E>(e) && forall|j: int| 0 <= j < k ==> (#[trigger] s[j]) is Ok,
            }
        }
    }
    impl<V> VxCollect<(String, V)> for collections::BTreeMap<String, V> {
        /// a later entry replaces an earlier one of the same name
        open spec fn collected(s: Seq<(String, V)>, r: Self) -> bool { r.map() == collections::kv(s) }
    }
    pub trait VxSeq<T> {
        spec fn els_of(&self) -> Seq<T>;
        fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) ensures r@ == self.els_of();
    }
    impl<T> VxSeq<T> for Vec<T> {
        open spec fn els_of(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) { unimplemented!() }
    }
    impl<T> VxSeq<T> for [T] {
        open spec fn els_of(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) { unimplemented!() }
    }
    pub trait VxSlice<T> {
        spec fn els(&self) -> Seq<T>;
        fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.els().contains(*x);
    }
    /// for types whose == is equality of values
    impl<T: PartialEq> VxSlice<T> for [T] {
        open spec fn els(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    }
    pub mod iter {
        use vstd::prelude::*;
        /// what repeated calls of next() return, the first being number 0
        pub trait Iterator: Sized {
            type Item;
            spec fn outs(&self, n: nat) -> Option<Self::Item>;
            /// the next call does not panic and returns
            spec fn can(&self) -> bool;
            fn next(&mut self) -> (r: Option<Self::Item>)
                requires old(self).can()
                ensures r == old(self).outs(0), r is Some ==> forall|n: nat| #[trigger] final(self).outs(n) == old(self).outs(n + 1),
                    r is None ==> forall|n: nat| #[trigger] final(self).outs(n) is None;
        }
        pub open spec fn passes<I: Iterator, P: Fn(&I::Item) -> bool>(it: I, p: P, j: nat) -> bool {
            it.outs(j) is Some && call_ensures(p, (&it.outs(j)->0,), true)
        }
        pub open spec fn ends_at<I: Iterator, P: Fn(&I::Item) -> bool>(it: I, p: P, m: nat) -> bool {
            &&& forall|j: nat| j < m ==> #[trigger] passes(it, p, j)
            &&& it.outs(m) is None || call_ensures(p, (&it.outs(m)->0,), false)
        }
        pub struct SkipWhile<I, P> { pub i: I, pub p: P }
        impl<I: Iterator, P> Iterator for SkipWhile<I, P> {
            type Item = I::Item;
            uninterp spec fn outs(&self, n: nat) -> Option<I::Item>;
            uninterp spec fn can(&self) -> bool;
            #[verifier::external_body]
            fn next(&mut self) -> (r: Option<I::Item>) { unimplemented!() }
        }
        pub struct TakeWhile<I, P> { pub i: I, pub p: P }
        impl<I: Iterator, P> Iterator for TakeWhile<I, P> {
            type Item = I::Item;
            uninterp spec fn outs(&self, n: nat) -> Option<I::Item>;
            uninterp spec fn can(&self) -> bool;
            #[verifier::external_body]
            fn next(&mut self) -> (r: Option<I::Item>) { unimplemented!() }
        }
        /// skip_while drops items up to the first one p refuses, take_while keeps them (p must not keep state)
        pub trait Adapters: Iterator {
            fn skip_while<P: Fn(&Self::Item) -> bool>(self, p: P) -> (r: SkipWhile<Self, P>)
                requires forall|n: nat| (#[trigger] self.outs(n)) matches Some(x) ==> call_requires(p, (&x,))
                ensures r.i == self, r.p == p, skipped(r),
                    forall|n: nat| (#[trigger] r.outs(n)) is Some ==> exists|j: nat| r.outs(n) == #[trigger] self.outs(j);
            fn take_while<P: Fn(&Self::Item) -> bool>(self, p: P) -> (r: TakeWhile<Self, P>)
                requires forall|n: nat| (#[trigger] self.outs(n)) matches Some(x) ==> call_requires(p, (&x,))
                ensures r.i == self, r.p == p, taken(r);
        }
        impl<I: Iterator> Adapters for I {
            #[verifier::external_body]
            fn skip_while<P: Fn(&Self::Item) -> bool>(self, p: P) -> (r: SkipWhile<Self, P>) { unimplemented!() }
            #[verifier::external_body]
            fn take_while<P: Fn(&Self::Item) -> bool>(self, p: P) -> (r: TakeWhile<Self, P>) { unimplemented!() }
        }
        pub open spec fn skipped<I: Iterator, P: Fn(&I::Item) -> bool>(r: SkipWhile<I, P>) -> bool {
            (exists|m: nat| #[trigger] ends_at(r.i, r.p, m) && forall|n: nat| #[trigger] r.outs(n) == r.i.outs(m + n))
                // p accepts them all: next() does not return
                || ((forall|j: nat| #[trigger] passes(r.i, r.p, j)) && forall|n: nat| (#[trigger] r.outs(n)) is None)
        }
        pub open spec fn taken<I: Iterator, P: Fn(&I::Item) -> bool>(r: TakeWhile<I, P>) -> bool {
            (exists|e: nat| #[trigger] ends_at(r.i, r.p, e) && forall|n: nat| #[trigger] r.outs(n) == (if n < e { r.i.outs(n) } else { None }))
                || ((forall|j: nat| #[trigger] passes(r.i, r.p, j)) && forall|n: nat| #[trigger] r.outs(n) == r.i.outs(n))
        }
        pub use crate::xstd::VxSlice;
    }
    pub mod num {
        use vstd::prelude::*;
        #[derive(Debug)]
        pub struct ParseIntError { pub x: u8 }
        pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
        pub open spec fn all_digits(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> is_digit(#[trigger] s[k]) }
        /// value of a string of decimal digits
        pub open spec fn dec(s: Seq<char>) -> int decreases s.len() {
            if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
        }
        /// s is an optionally signed (a minus only for signed types) non-empty number of value v
        pub open spec fn int_text(s: Seq<char>, v: int, signed: bool) -> bool {
            exists|sign: Seq<char>, d: Seq<char>| #[trigger] (sign + d) == s && all_digits(d) && d.len() > 0
                && ((signed && sign == seq!['-'] && v == -dec(d)) || ((sign == seq!['+'] || sign.len() == 0) && v == dec(d)))
        }
        pub broadcast proof fn lemma_int_text(s: Seq<char>, v: int, w: int, signed: bool)
            requires #[trigger] int_text(s, v, signed), #[trigger] int_text(s, w, signed)
            ensures v == w
        {
            let (g, d) = choose|sign: Seq<char>, d: Seq<char>| #[trigger] (sign + d) == s && all_digits(d) && d.len() > 0
                && ((signed && sign == seq!['-'] && v == -dec(d)) || ((sign == seq!['+'] || sign.len() == 0) && v == dec(d)));
            let (h, e) = choose|sign: Seq<char>, d: Seq<char>| #[trigger] (sign + d) == s && all_digits(d) && d.len() > 0
                && ((signed && sign == seq!['-'] && w == -dec(d)) || ((sign == seq!['+'] || sign.len() == 0) && w == dec(d)));
            assert(g.len() <= 1 && h.len() <= 1);
            assert((g + d)[0] == s[0] && (h + e)[0] == s[0]);
            if g.len() == 0 { assert(d[0] == s[0]); }
            if h.len() == 0 { assert(e[0] == s[0]); }
            if g.len() == 1 { assert(g[0] == s[0]); }
            if h.len() == 1 { assert(h[0] == s[0]); }
            assert(g.len() == h.len());
            assert(g =~= h) by { if g.len() == 1 { assert(g[0] == h[0]); } }
            assert(d =~= e) by { assert((g + d).skip(g.len() as int) =~= d); assert((h + e).skip(g.len() as int) =~= e); }
        }
        /// i is an optionally signed non-empty number of value v, as long as possible, then rest
        pub open spec fn int_prefix(i: Seq<char>, rest: Seq<char>, v: int) -> bool {
            exists|sign: Seq<char>, d: Seq<char>| #[trigger] (sign + d) + rest == i && all_digits(d) && d.len() > 0
                && (rest.len() > 0 ==> !is_digit(rest[0]))
                && ((sign == seq!['-'] && v == -dec(d)) || ((sign == seq!['+'] || sign.len() == 0) && v == dec(d)))
        }
        pub open spec fn no_int_prefix(i: Seq<char>, lo: int, hi: int) -> bool {
            forall|rest: Seq<char>, v: int| #[trigger] int_prefix(i, rest, v) ==> v < lo || v > hi
        }
    }

    pub uninterp spec fn uppercase(s: Seq<char>) -> Seq<char>;
    pub open spec fn ascii_upper(c: char) -> char { if 'a' <= c <= 'z' { (c as u8 - 32) as u8 as char } else { c } }
    pub axiom fn ax_uppercase_ascii(s: Seq<char>)
        requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] as u32) < 128
        ensures uppercase(s) == s.map_values(|c: char| ascii_upper(c));

    pub mod string {
        use vstd::prelude::*;
        use crate::xstd::fmt::Display;
        pub trait ToString {
            spec fn ts(&self) -> Seq<char>;
            fn vx_to_string(&self) -> (r: String) ensures r@ == self.ts();
        }
        impl<T: Display + ?Sized> ToString for T {
            open spec fn ts(&self) -> Seq<char> { self.disp() }
            #[verifier::external_body]
            fn vx_to_string(&self) -> (r: String) { unimplemented!() }
        }
        pub fn to_string_of<T: Display + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { x.vx_to_string() }
        pub use crate::xstd::String;
        #[verifier::external_body]
        pub fn from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
        pub trait AsRef<T: ?Sized> {
            spec fn refd(&self) -> &T;
            fn as_ref(&self) -> (r: &T) ensures r == self.refd();
        }
        /// the String of these characters
        pub uninterp spec fn string_of(s: Seq<char>) -> String;
        pub broadcast axiom fn ax_string_of(s: Seq<char>) ensures (#[trigger] string_of(s))@ == s;
        pub uninterp spec fn str_of(s: String) -> &'static str;
        pub broadcast axiom fn ax_str_of(s: String) ensures (#[trigger] str_of(s))@ == s@;
        impl AsRef<str> for String {
            open spec fn refd(&self) -> &str { str_of(*self) }
            #[verifier::external_body]
            fn as_ref(&self) -> (r: &str) { unimplemented!() }
        }
    }
    pub use std::string::String;

    pub mod fmt {
        use vstd::prelude::*;
        pub use core::fmt::Debug;
        pub struct Error;
        pub type Result = core::result::Result<(), Error>;
        pub struct Formatter<'a> { pub s: String, pub m: core::marker::PhantomData<&'a ()> }
        impl<'a> Formatter<'a> {
            pub open spec fn view(&self) -> Seq<char> { self.s@ }
            #[verifier::external_body]
            pub fn vx_new() -> (r: Formatter<'a>) ensures r@ == Seq::<char>::empty() { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_lit(&mut self, l: &str) ensures final(self)@ == old(self)@ + l@ { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_finish(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
            /// Writing to a Formatter backed by a String does not fail.
            #[verifier::external_body]
            pub fn write_str(&mut self, l: &str) -> (r: Result) ensures r is Ok, final(self)@ == old(self)@ + l@ { unimplemented!() }
        }
        pub trait Display {
            spec fn disp(&self) -> Seq<char>;
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
                ensures r is Ok, final(f)@ == old(f)@ + self.disp();
        }
        impl Display for str {
            open spec fn disp(&self) -> Seq<char> { self@ }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        impl Display for String {
            open spec fn disp(&self) -> Seq<char> { self@ }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        impl Display for char {
            open spec fn disp(&self) -> Seq<char> { seq![*self] }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        impl<T: Display + ?Sized> Display for &T {
            open spec fn disp(&self) -> Seq<char> { (**self).disp() }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        /// what {} prints for an i32 / i8 / u8 / u32
        pub open spec fn num_text(n: int) -> Seq<char> { if n < 0 { seq!['-'] + nat_text(-n) } else { nat_text(n) } }
        pub open spec fn digit(n: int) -> char { (n + 48) as u8 as char }
        pub open spec fn nat_text(n: int) -> Seq<char> decreases n {
            if n < 10 { seq![digit(n)] } else { nat_text(n / 10).push(digit(n % 10)) }
        }
        pub open spec fn two_text(n: int) -> Seq<char> { seq![digit(n / 10), digit(n % 10)] }
        pub uninterp spec fn float_text(x: f32) -> Seq<char>;
        impl Display for f32 {
            open spec fn disp(&self) -> Seq<char> { float_text(*self) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        impl Display for i8 {
            open spec fn disp(&self) -> Seq<char> { num_text(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        impl Display for u8 {
            open spec fn disp(&self) -> Seq<char> { num_text(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        impl Display for u32 {
            open spec fn disp(&self) -> Seq<char> { num_text(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        impl Display for i32 {
            open spec fn disp(&self) -> Seq<char> { num_text(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
        }
        /// {:02} on a number of at most two digits (a wider one is printed in full)
        #[verifier::external_body]
        pub fn vx_arg02(f: &mut Formatter<'_>, x: &i32) ensures 0 <= *x < 100 ==> final(f)@ == old(f)@ + two_text(*x as int) { unimplemented!() }
        /// {:.1} on a single-precision number, left uninterpreted
        pub uninterp spec fn float1_text(x: f32) -> Seq<char>;
        #[verifier::external_body]
        pub fn vx_argp1(f: &mut Formatter<'_>, x: &f32) ensures final(f)@ == old(f)@ + float1_text(*x) { unimplemented!() }
        pub fn vx_arg<T: Display>(f: &mut Formatter<'_>, x: &T) ensures final(f)@ == old(f)@ + x.disp() { let _ = x.fmt(f); }
        #[verifier::external_body]
        pub fn vx_argdebug<T>(f: &mut Formatter<'_>, x: &T) { unimplemented!() }
    }

    pub mod str {
        use vstd::prelude::*;
        pub trait FromStr: Sized {
            type Err;
            /// parse_ok(s, v): parsing s may yield v.  parse_err(s): parsing s may fail.
            spec fn parse_ok(s: Seq<char>, v: Self) -> bool;
            spec fn parse_err(s: Seq<char>) -> bool;
            fn from_str(s: &str) -> (r: Result<Self, Self::Err>)
                ensures match r { Ok(v) => Self::parse_ok(s@, v), Err(_) => Self::parse_err(s@) };
        }
        pub fn parse<F: FromStr>(s: &str) -> (r: Result<F, F::Err>)
            ensures match r { Ok(v) => F::parse_ok(s@, v), Err(_) => F::parse_err(s@) }
        { F::from_str(s) }
        macro_rules! int_from_str { ($t:ident, $signed:expr) => { verus! {
        impl FromStr for $t {
            type Err = crate::xstd::num::ParseIntError;
            open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { crate::xstd::num::int_text(s, v as int, $signed) }
            open spec fn parse_err(s: Seq<char>) -> bool { forall|v: int| $t::MIN <= v <= $t::MAX ==> !#[trigger] crate::xstd::num::int_text(s, v, $signed) }
            #[verifier::external_body]
            fn from_str(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
        }
        } } }
        int_from_str!(u8, false);
        int_from_str!(u32, false);
        int_from_str!(i8, true);
        int_from_str!(i64, true);
        pub trait VxStr {
            spec fn chars_of(&self) -> Seq<char>;
            fn vx_parse<F: FromStr>(&self) -> (r: Result<F, F::Err>)
                ensures match r { Ok(v) => F::parse_ok(self.chars_of(), v), Err(_) => F::parse_err(self.chars_of()) };
            fn vx_to_uppercase(&self) -> (r: String) ensures r@ == crate::xstd::uppercase(self.chars_of());
        }
        impl VxStr for str {
            open spec fn chars_of(&self) -> Seq<char> { self@ }
            fn vx_parse<F: FromStr>(&self) -> (r: Result<F, F::Err>) { F::from_str(self) }
            #[verifier::external_body]
            fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
        }
        impl VxStr for String {
            open spec fn chars_of(&self) -> Seq<char> { self@ }
            #[verifier::external_body]
            fn vx_parse<F: FromStr>(&self) -> (r: Result<F, F::Err>) { unimplemented!() }
            #[verifier::external_body]
            fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
        }
    }
}
