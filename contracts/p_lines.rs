// The lines of a component.
pub mod lines {
    use vstd::prelude::*;
    use crate::xstd::blen;
    use crate::ser::*;
    use crate::ContentLine;
    #[verifier::opaque]
    pub open spec fn app(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> Seq<Seq<char>> { a + b }
    /// then one line or block per element
    pub open spec fn each_from<T: Serialize>(base: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>, n: nat) -> Seq<Seq<char>> decreases n {
        if n == 0 { base } else { app(each_from(base, name, v, (n - 1) as nat), field_lines(name, v[n - 1])) }
    }
    /// then the line of each entry, under its own name
    pub open spec fn map_from(base: Seq<Seq<char>>, v: Seq<(String, ContentLine)>, n: nat) -> Seq<Seq<char>> decreases n {
        if n == 0 { base } else { app(map_from(base, v, (n - 1) as nat), field_lines(v[n - 1].0@, v[n - 1].1)) }
    }
    pub open spec fn plain<T: Serialize>(v: Seq<T>) -> bool { forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).attr_spec() is None }
    /// then one line with the elements separated by commas, or one line each when any has parameters
    #[verifier::opaque]
    pub open spec fn list_from<T: Serialize>(base: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>) -> Seq<Seq<char>> {
        if plain(v) { app(base, prop_lines(name, None, list_text(v))) } else { each_from(base, name, v, v.len()) }
    }
    pub broadcast proof fn lemma_each_one<T: Serialize>(base: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>)
        requires v.len() == 1
        ensures #[trigger] each_from(base, name, v, v.len()) == app(base, field_lines(name, v[0]))
    { reveal_with_fuel(each_from, 3); }
    pub broadcast proof fn lemma_list_one<T: Serialize>(base: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>)
        requires v.len() == 1, T::comp() is None
        ensures #[trigger] list_from(base, name, v) == app(base, field_lines(name, v[0]))
    {
        reveal(list_from);
        lemma_each_one(base, name, v);
        if plain(v) {
            assert(v[0].attr_spec() is None);
            assert(v.drop_last().len() == 0);
            assert(commas(v.drop_last()) =~= Seq::<char>::empty());
            assert(list_text(v) =~= v[0].ser());
        }
    }
    pub broadcast proof fn lemma_list_plain<T: Serialize>(base: Seq<Seq<char>>, name: Seq<char>, v: Vec<T>)
        requires plain(v@)
        ensures #![trigger list_from(base, name, v@), field_lines(name, v)] list_from(base, name, v@) == app(base, field_lines(name, v))
    { reveal(list_from); }
    pub broadcast proof fn lemma_list_each<T: Serialize>(base: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>, n: nat)
        requires !plain(v)
        ensures #![trigger list_from(base, name, v), each_from(base, name, v, n)] n == v.len() ==> list_from(base, name, v) == each_from(base, name, v, n)
    { reveal(list_from); }
    pub broadcast proof fn lemma_list_few<T: Serialize>(base: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>, n: nat)
        requires v.len() <= 1, T::comp() is None
        ensures #![trigger list_from(base, name, v), each_from(base, name, v, n)] n == v.len() ==> list_from(base, name, v) == each_from(base, name, v, n)
    {
        if n == v.len() {
            if n == 1 { lemma_list_one(base, name, v); lemma_each_one(base, name, v); } else { reveal(list_from); reveal(app); assert(list_text(v) =~= Seq::<char>::empty()); assert(base + Seq::<Seq<char>>::empty() =~= base); }
        }
    }
    /// concatenation, kept opaque to the solver
    #[verifier::opaque]
    pub open spec fn two(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
    /// String::push_str
    pub trait VxPush {
        spec fn s(&self) -> Seq<char>;
        fn vx_push_str(&mut self, t: &str) ensures final(self).s() == two(old(self).s(), t@);
    }
    impl VxPush for String {
        open spec fn s(&self) -> Seq<char> { self@ }
        fn vx_push_str(&mut self, t: &str) { proof { reveal(two); } self.push_str(t); }
    }
    pub proof fn lemma_marks()
        ensures "BEGIN:"@.len() == 6, "END:"@.len() == 4
    { reveal_strlit("BEGIN:"); reveal_strlit("END:"); }
    pub broadcast proof fn lemma_push(a: Seq<char>, la: Seq<Seq<char>>, b: Seq<char>, lb: Seq<Seq<char>>)
        requires writes(a, la), writes(b, lb)
        ensures #![trigger writes(a, la), writes(b, lb), two(a, b)] writes(two(a, b), app(la, lb))
    { reveal(two); reveal(app); lemma_writes_append(a, la, b, lb); }
    /// BEGIN and END lines
    pub broadcast proof fn lemma_mark(a: Seq<char>, la: Seq<Seq<char>>, kw: Seq<char>, name: Seq<char>)
        requires writes(a, la), kw.len() <= 6, name.len() <= 12
        ensures #![trigger writes(a, la), two(two(two(a, kw), name), "\r\n"@)] writes(two(two(two(a, kw), name), "\r\n"@), app(la, seq![kw + name]))
    {
        reveal(two); reveal(app);
        let x = kw + name + "\r\n"@;
        lemma_blen_pos(kw + name);
        assert(fold_ok(x, kw + name));
        lemma_writes_one(x, kw + name);
        lemma_writes_append(a, la, x, seq![kw + name]);
        assert(a + kw + name + "\r\n"@ =~= a + x);
    }
    pub open spec fn heads(l: Seq<Seq<char>>, b: Seq<char>) -> bool { l.len() > 0 && l[0] == b }
    pub proof fn lemma_heads_app(l: Seq<Seq<char>>, x: Seq<Seq<char>>, b: Seq<char>) requires heads(l, b) ensures heads(app(l, x), b) { reveal(app); }
    pub proof fn lemma_heads_each<T: Serialize>(l: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>, n: nat, b: Seq<char>)
        requires heads(l, b)
        ensures heads(each_from(l, name, v, n), b)
        decreases n
    { if n > 0 { lemma_heads_each(l, name, v, (n - 1) as nat, b); lemma_heads_app(each_from(l, name, v, (n - 1) as nat), field_lines(name, v[n - 1]), b); } }
    pub proof fn lemma_heads_list<T: Serialize>(l: Seq<Seq<char>>, name: Seq<char>, v: Seq<T>, b: Seq<char>)
        requires heads(l, b)
        ensures heads(list_from(l, name, v), b)
    { reveal(list_from); lemma_heads_app(l, prop_lines(name, None, list_text(v)), b); lemma_heads_each(l, name, v, v.len(), b); }
    pub proof fn lemma_heads_map(l: Seq<Seq<char>>, v: Seq<(String, ContentLine)>, n: nat, b: Seq<char>)
        requires heads(l, b)
        ensures heads(map_from(l, v, n), b)
        decreases n
    { if n > 0 { lemma_heads_map(l, v, (n - 1) as nat, b); lemma_heads_app(map_from(l, v, (n - 1) as nat), field_lines(v[n - 1].0@, v[n - 1].1), b); } }
    pub broadcast group group_lines { lemma_each_one, lemma_list_one, lemma_list_plain, lemma_list_each, lemma_list_few, lemma_push, lemma_mark }
}
