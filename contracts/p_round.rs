// A component written and read again: the lines of its fields, told apart by their names.
pub mod round {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::collections::{BTreeMap, kv};
    use crate::ser::*;
    use crate::lines::*;
    use crate::grammar::*;
    use crate::again::*;
    use crate::glue::{line_of as of_line, lines_of};
    use crate::nest::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::trip::*;
    use crate::ContentLine;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11
    pub type Texts = Seq<Seq<char>>;
    pub type Lines = Seq<Line>;
    /// a component as a list of fields, each with its lines
    pub trait Form: Sized {
        /// the field a name belongs to
        spec fn tagx(k: Seq<char>) -> int;
    }
    pub open spec fn flat_lines(fs: Seq<Lines>) -> Lines decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { flat_lines(fs.drop_last()) + fs.last() } }
    /// the lines of a field
    pub open spec fn sel<T: Form>(rs: Lines, i: int) -> Lines decreases rs.len() {
        if rs.len() == 0 { Seq::empty() } else if T::tagx(rs.last().key) == i { sel::<T>(rs.drop_last(), i).push(rs.last()) } else { sel::<T>(rs.drop_last(), i) }
    }
    pub open spec fn of_field<T: Form>(rs: Lines, i: int) -> bool { forall|j: int| 0 <= j < rs.len() ==> T::tagx((#[trigger] rs[j]).key) == i }
    pub proof fn lemma_sel_own<T: Form>(rs: Lines, k: int, i: int)
        requires of_field::<T>(rs, k)
        ensures sel::<T>(rs, i) == if k == i { rs } else { Seq::empty() }
        decreases rs.len()
    {
        if rs.len() > 0 {
            let d = rs.drop_last();
            assert forall|j: int| 0 <= j < d.len() implies T::tagx((#[trigger] d[j]).key) == k by { assert(d[j] == rs[j]); }
            lemma_sel_own::<T>(d, k, i);
            assert(T::tagx(rs[rs.len() - 1].key) == k);
            assert(d.push(rs.last()) =~= rs);
        } else { assert(rs =~= Seq::empty()); }
    }
    pub proof fn lemma_sel_add<T: Form>(a: Lines, b: Lines, i: int)
        ensures sel::<T>(a + b, i) == sel::<T>(a, i) + sel::<T>(b, i)
        decreases b.len()
    {
        if b.len() == 0 {
            assert(a + b =~= a); assert(sel::<T>(a, i) + sel::<T>(b, i) =~= sel::<T>(a, i));
        } else {
            lemma_sel_add::<T>(a, b.drop_last(), i);
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            assert(sel::<T>(a + b, i) =~= sel::<T>(a, i) + sel::<T>(b, i));
        }
    }
    /// a line of a field is among its lines
    pub proof fn lemma_sel_has<T: Form>(rs: Lines, i: int, j: int)
        requires 0 <= j < rs.len(), T::tagx(rs[j].key) == i
        ensures exists|k: int| 0 <= k < sel::<T>(rs, i).len() && #[trigger] sel::<T>(rs, i)[k] == rs[j]
        decreases rs.len()
    {
        let s = sel::<T>(rs, i);
        if j == rs.len() - 1 { assert(s[s.len() - 1] == rs[j]); } else {
            let d = rs.drop_last();
            assert(d[j] == rs[j]);
            lemma_sel_has::<T>(d, i, j);
            let k = choose|k: int| 0 <= k < sel::<T>(d, i).len() && #[trigger] sel::<T>(d, i)[k] == d[j];
            assert(s[k] == rs[j]);
        }
    }
    pub proof fn lemma_sel_some<T: Form>(rs: Lines, i: int)
        requires sel::<T>(rs, i).len() > 0
        ensures exists|j: int| 0 <= j < rs.len() && T::tagx((#[trigger] rs[j]).key) == i
        decreases rs.len()
    {
        if T::tagx(rs.last().key) == i { assert(rs[rs.len() - 1] == rs.last()); } else {
            lemma_sel_some::<T>(rs.drop_last(), i);
            let j = choose|j: int| 0 <= j < rs.drop_last().len() && T::tagx((#[trigger] rs.drop_last()[j]).key) == i;
            assert(rs[j] == rs.drop_last()[j]);
        }
    }
    pub open spec fn keyed<T: Form>(fs: Seq<Lines>, n: int) -> bool { forall|k: int| 0 <= k < n ==> of_field::<T>(#[trigger] fs[k], k) }
    pub proof fn lemma_sel<T: Form>(fs: Seq<Lines>, n: int, i: int)
        requires 0 <= n <= fs.len(), keyed::<T>(fs, n)
        ensures sel::<T>(flat_lines(fs.take(n)), i) == if 0 <= i < n { fs[i] } else { Seq::empty() }
        decreases n
    {
        if n > 0 {
            let d = fs.take(n);
            assert(d.drop_last() =~= fs.take(n - 1));
            assert(d.last() == fs[n - 1]);
            lemma_sel::<T>(fs, n - 1, i);
            lemma_sel_add::<T>(flat_lines(fs.take(n - 1)), fs[n - 1], i);
            assert(of_field::<T>(fs[n - 1], n - 1));
            lemma_sel_own::<T>(fs[n - 1], n - 1, i);
            assert(Seq::<Line>::empty() + fs[n - 1] =~= fs[n - 1]);
            if 0 <= i < n - 1 { assert(fs[i] + Seq::<Line>::empty() =~= fs[i]); }
        }
    }

    // ---- written ----
    pub open spec fn begins(n: Seq<char>) -> Seq<char> { "BEGIN:"@ + n }
    /// BEGIN:n and the lines of the first fields
    #[verifier::opaque]
    pub open spec fn grown<T: Form>(l: Texts, name: Seq<char>, fs: Seq<Lines>, n: int) -> bool {
        0 <= n <= fs.len() && l.len() > 0 && l[0] == begins(name) && all_shown(l.skip(1), flat_lines(fs.take(n))) && keyed::<T>(fs, n)
    }
    pub proof fn lemma_begun<T: Form>(name: Seq<char>, fs: Seq<Lines>)
        ensures grown::<T>(app(Seq::empty(), seq!["BEGIN:"@ + name]), name, fs, 0)
    {
        reveal(grown); reveal(app);
        assert(Seq::<Seq<char>>::empty() + seq!["BEGIN:"@ + name] =~= seq![begins(name)]);
    }
    pub proof fn lemma_grow<T: Form>(l: Texts, name: Seq<char>, fs: Seq<Lines>, n: int, x: Texts)
        requires grown::<T>(l, name, fs, n), n < fs.len(), all_shown(x, fs[n]), of_field::<T>(fs[n], n)
        ensures grown::<T>(app(l, x), name, fs, n + 1)
    {
        reveal(grown); reveal(app);
        assert(fs.take(n + 1).drop_last() =~= fs.take(n));
        let (a, r) = (l.skip(1), flat_lines(fs.take(n)));
        assert((l + x).skip(1) =~= a + x);
        assert forall|k: int| 0 <= k < (a + x).len() implies shown(#[trigger] (a + x)[k], (r + fs[n])[k]) by {
            if k < a.len() { assert((a + x)[k] == a[k]); assert(shown(a[k], r[k])); } else { assert((a + x)[k] == x[k - a.len()]); assert(shown(x[k - a.len()], fs[n][k - a.len()])); }
        }
    }
    /// the line of a value
    pub open spec fn line<V: Kept>(name: Seq<char>, x: V) -> Line { Line { key: name, params: kept(x.params()), value: x.ser() } }
    /// one line per value
    pub open spec fn each<V: Kept>(name: Seq<char>, xs: Seq<V>) -> Lines { Seq::new(xs.len(), |k: int| line(name, xs[k])) }
    pub open spec fn just<V>(x: V) -> Seq<V> { seq![x] }
    pub open spec fn maybe<V>(x: Option<V>) -> Seq<V> { match x { Some(x) => seq![x], None => Seq::empty() } }
    pub open spec fn each_lines<V: Kept>(name: Seq<char>, xs: Seq<V>, n: nat) -> Texts decreases n {
        if n == 0 { Seq::empty() } else { each_lines(name, xs, (n - 1) as nat) + field_lines(name, xs[n - 1]) }
    }
    pub proof fn lemma_shown<V: Kept>(name: Seq<char>, x: V)
        requires prop_name(name), x.fit()
        ensures all_shown(field_lines(name, x), seq![line(name, x)])
    {
        V::written(x);
        let l = crate::ser::line_of(name, attr_of(x.params()), x.ser());
        assert forall|rest: Seq<char>| #[trigger] g_line(l + crlf_end() + rest) == Some((line(name, x), rest)) by { lemma_prop(name, x.params(), x.ser(), rest); }
        lemma_prop(name, x.params(), x.ser(), Seq::empty());
        assert(field_lines(name, x) == seq![l]);
        assert(shown(l, line(name, x)));
    }
    pub proof fn lemma_each_shown<V: Kept>(name: Seq<char>, xs: Seq<V>, n: nat)
        requires prop_name(name), all_fit(xs), n <= xs.len()
        ensures all_shown(each_lines(name, xs, n), each(name, xs.take(n as int)))
        decreases n
    {
        if n > 0 {
            lemma_each_shown(name, xs, (n - 1) as nat);
            assert(xs[n - 1].fit());
            lemma_shown(name, xs[n - 1]);
            let (a, b) = (each_lines(name, xs, (n - 1) as nat), field_lines(name, xs[n - 1]));
            let r = each(name, xs.take(n as int));
            let q = each(name, xs.take(n - 1));
            assert forall|k: int| 0 <= k < (a + b).len() implies shown(#[trigger] (a + b)[k], r[k]) by {
                if k < a.len() { assert((a + b)[k] == a[k]); assert(shown(a[k], q[k])); assert(q[k] == r[k]); } else { assert((a + b)[k] == b[0]); assert(shown(b[0], seq![line(name, xs[n - 1])][0])); }
            }
        }
    }
    pub proof fn lemma_each_from<V: Kept>(l: Texts, name: Seq<char>, xs: Seq<V>, n: nat)
        ensures each_from(l, name, xs, n) == app(l, each_lines(name, xs, n))
        decreases n
    {
        reveal(app);
        if n == 0 { assert(l + Seq::<Seq<char>>::empty() =~= l); } else {
            lemma_each_from(l, name, xs, (n - 1) as nat);
            assert(l + each_lines(name, xs, (n - 1) as nat) + field_lines(name, xs[n - 1]) =~= l + each_lines(name, xs, n));
        }
    }
    pub open spec fn can_all<P: Back<V>, V: Kept>(xs: Seq<V>) -> bool { all_fit(xs) && forall|k: int| 0 <= k < xs.len() ==> P::can(#[trigger] xs[k]) }
    /// the names of the field
    pub open spec fn tagged<T: Form, P: Prop>(i: int) -> bool { forall|k: Seq<char>| (#[trigger] T::tagx(k) == i) == (k == P::name()) }
    pub proof fn lemma_each_of<T: Form, P: Prop, V: Kept>(xs: Seq<V>, i: int)
        requires tagged::<T, P>(i)
        ensures of_field::<T>(each(P::name(), xs), i)
    { }
    pub proof fn grow_req<T: Form, P: Back<V>, V: Kept>(l: Texts, name: Seq<char>, fs: Seq<Lines>, n: int, x: V)
        requires grown::<T>(l, name, fs, n), n < fs.len(), tagged::<T, P>(n), can_all::<P, V>(just(x)), fs[n] == each(P::name(), just(x))
        ensures grown::<T>(app(l, field_lines(P::name(), x)), name, fs, n + 1)
    {
        P::named();
        assert(just(x)[0].fit());
        lemma_shown(P::name(), x);
        lemma_each_of::<T, P, V>(just(x), n);
        assert(seq![line(P::name(), x)] =~= each(P::name(), just(x)));
        lemma_grow::<T>(l, name, fs, n, field_lines(P::name(), x));
    }
    pub proof fn grow_opt<T: Form, P: Back<V>, V: Kept>(l: Texts, name: Seq<char>, fs: Seq<Lines>, n: int, x: Option<V>)
        requires grown::<T>(l, name, fs, n), n < fs.len(), tagged::<T, P>(n), can_all::<P, V>(maybe(x)), fs[n] == each(P::name(), maybe(x))
        ensures grown::<T>(app(l, field_lines(P::name(), x)), name, fs, n + 1)
    {
        P::named();
        lemma_each_of::<T, P, V>(maybe(x), n);
        match x {
            Some(y) => {
                assert(maybe(x)[0].fit());
                V::written(y);
                lemma_shown(P::name(), y);
                assert(field_lines(P::name(), x) == field_lines(P::name(), y));
                assert(seq![line(P::name(), y)] =~= each(P::name(), maybe(x)));
            }
            None => { assert(field_lines(P::name(), x) == Seq::<Seq<char>>::empty()); assert(each(P::name(), maybe(x)) =~= Seq::empty()); }
        }
        lemma_grow::<T>(l, name, fs, n, field_lines(P::name(), x));
    }
    pub proof fn grow_vec<T: Form, P: Back<V>, V: Kept>(l: Texts, name: Seq<char>, fs: Seq<Lines>, n: int, xs: Seq<V>)
        requires grown::<T>(l, name, fs, n), n < fs.len(), tagged::<T, P>(n), can_all::<P, V>(xs), fs[n] == each(P::name(), xs)
        ensures grown::<T>(each_from(l, P::name(), xs, xs.len()), name, fs, n + 1)
    {
        P::named();
        lemma_each_of::<T, P, V>(xs, n);
        lemma_each_shown(P::name(), xs, xs.len());
        assert(xs.take(xs.len() as int) =~= xs);
        lemma_each_from(l, P::name(), xs, xs.len());
        lemma_grow::<T>(l, name, fs, n, each_lines(P::name(), xs, xs.len()));
    }
    // lists: on one line, or on one line each
    pub open spec fn chunk<E: Kept>(name: Seq<char>, c: Seq<E>) -> Line { if c.len() == 1 { line(name, c[0]) } else { Line { key: name, params: kept(Seq::empty()), value: list_text(c) } } }
    pub open spec fn chunks<E: Kept>(name: Seq<char>, cs: Seq<Seq<E>>) -> Lines { Seq::new(cs.len(), |k: int| chunk(name, cs[k])) }
    pub open spec fn cut<E: Kept>(xs: Seq<E>) -> Seq<Seq<E>> {
        if !plain(xs) { Seq::new(xs.len(), |k: int| seq![xs[k]]) } else if xs.len() == 0 { Seq::empty() } else { seq![xs] }
    }
    pub open spec fn glued<E>(cs: Seq<Seq<E>>) -> Seq<E> decreases cs.len() { if cs.len() == 0 { Seq::empty() } else { glued(cs.drop_last()) + cs.last() } }
    pub open spec fn chunk_ok<E: Kept>(c: Seq<E>) -> bool { all_fit(c) && c.len() > 0 && (c.len() == 1 || plain(c)) }
    pub open spec fn chunks_ok<E: Kept>(cs: Seq<Seq<E>>) -> bool { forall|k: int| 0 <= k < cs.len() ==> chunk_ok(#[trigger] cs[k]) }
    pub proof fn lemma_singles<E: Kept>(xs: Seq<E>)
        ensures glued(Seq::new(xs.len(), |k: int| seq![xs[k]])) == xs
        decreases xs.len()
    {
        let cs = Seq::new(xs.len(), |k: int| seq![xs[k]]);
        if xs.len() > 0 {
            let d = xs.drop_last();
            lemma_singles(d);
            assert(cs.drop_last() =~= Seq::new(d.len(), |k: int| seq![d[k]]));
            assert(glued(cs) =~= xs);
        } else { assert(xs =~= Seq::empty()); }
    }
    pub proof fn lemma_cut<E: Kept>(xs: Seq<E>)
        requires all_fit(xs)
        ensures glued(cut(xs)) == xs, chunks_ok(cut(xs))
    {
        if !plain(xs) { lemma_singles(xs); assert forall|k: int| 0 <= k < cut(xs).len() implies chunk_ok(#[trigger] cut(xs)[k]) by { assert(xs[k].fit()); } }
        else if xs.len() == 0 { assert(xs =~= Seq::empty()); }
        else {
            assert(cut(xs).drop_last() =~= Seq::empty());
            assert(glued(cut(xs).drop_last()) =~= Seq::<E>::empty());
            assert(glued(cut(xs)) =~= xs);
        }
    }
    pub proof fn lemma_list_one_text<E: Kept>(x: E)
        ensures list_text(seq![x]) == x.ser()
    {
        let v = seq![x];
        assert(v.drop_last().len() == 0);
        assert(commas(v.drop_last()) =~= Seq::<char>::empty());
        assert(list_text(v) =~= v[0].ser());
    }
    proof fn lemma_commas<E: Kept>(xs: Seq<E>)
        requires all_fit(xs)
        ensures no_breaks(commas(xs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let d = xs.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).fit() by { assert(xs[k].fit()); }
            lemma_commas(d);
            assert(xs[xs.len() - 1].fit());
            E::written(xs.last());
            let (a, b) = (commas(d), xs.last().ser());
            assert forall|k: int| 0 <= k < commas(xs).len() implies #[trigger] commas(xs)[k] != '\r' && commas(xs)[k] != '\n' by {
                if k < a.len() { assert(commas(xs)[k] == a[k]); } else if k < a.len() + b.len() { assert(commas(xs)[k] == b[k - a.len()]); }
            }
        }
    }
    proof fn lemma_list_fit<E: Kept>(xs: Seq<E>)
        requires all_fit(xs)
        ensures list_fit(xs)
    {
        if xs.len() > 0 {
            let d = xs.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).fit() by { assert(xs[k].fit()); }
            lemma_commas(d);
            assert(xs[xs.len() - 1].fit());
            E::written(xs.last());
            let (a, b, l) = (commas(d), xs.last().ser(), list_text(xs));
            assert forall|k: int| 0 <= k < l.len() implies #[trigger] l[k] != '\r' && l[k] != '\n' by {
                if k < a.len() { assert(l[k] == a[k]); } else { assert(l[k] == b[k - a.len()]); }
            }
        }
    }
    pub proof fn grow_list<T: Form, P: BackList<E>, E: Kept>(l: Texts, name: Seq<char>, fs: Seq<Lines>, n: int, xs: Seq<E>)
        requires grown::<T>(l, name, fs, n), n < fs.len(), tagged::<T, P>(n), all_fit(xs), fs[n] == chunks(P::name(), cut(xs))
        ensures grown::<T>(list_from(l, P::name(), xs), name, fs, n + 1)
    {
        reveal(list_from);
        lemma_list_fit(xs);
        P::list_named();
        assert(of_field::<T>(fs[n], n));
        if !plain(xs) {
            lemma_each_shown(P::name(), xs, xs.len());
            assert(xs.take(xs.len() as int) =~= xs);
            lemma_each_from(l, P::name(), xs, xs.len());
            assert(fs[n] =~= each(P::name(), xs));
            lemma_grow::<T>(l, name, fs, n, each_lines(P::name(), xs, xs.len()));
        } else if xs.len() == 0 {
            assert(list_text(xs).len() == 0);
            assert(fs[n] =~= Seq::empty());
            lemma_grow::<T>(l, name, fs, n, Seq::empty());
        } else {
            let nm = P::name();
            let x = crate::ser::line_of(nm, None, list_text(xs));
            if xs.len() == 1 {
                assert(xs[0].fit());
                assert(xs =~= seq![xs[0]]);
                lemma_list_one_text(xs[0]);
                E::written(xs[0]);
                assert(xs[0].attr_spec() is None);
                lemma_shown(nm, xs[0]);
                assert(field_lines(nm, xs[0]) == prop_lines(nm, None, list_text(xs)));
                assert(fs[n] =~= seq![line(nm, xs[0])]);
            } else {
                let r = chunk(nm, xs);
                assert(attr_of(Seq::<(String, String)>::empty()) is None);
                assert forall|rest: Seq<char>| #[trigger] g_line(x + crlf_end() + rest) == Some((r, rest)) by { lemma_prop(nm, Seq::empty(), list_text(xs), rest); }
                lemma_prop(nm, Seq::empty(), list_text(xs), Seq::empty());
                assert(shown(x, r));
                assert(fs[n] =~= seq![r]);
                assert(all_shown(prop_lines(nm, None, list_text(xs)), fs[n]));
            }
            lemma_grow::<T>(l, name, fs, n, prop_lines(nm, None, list_text(xs)));
        }
    }
    /// a list on one line has a text
    pub open spec fn list_fit<E: Kept>(xs: Seq<E>) -> bool { plain(xs) && xs.len() > 0 ==> list_text(xs).len() > 0 && no_breaks(list_text(xs)) }
    // the other properties
    pub open spec fn mapped(es: Seq<(String, ContentLine)>) -> Lines { Seq::new(es.len(), |k: int| line(es[k].0@, es[k].1)) }
    pub open spec fn entry_fit<T: Form>(e: (String, ContentLine), i: int) -> bool { prop_name(e.0@) && T::tagx(e.0@) == i && e.1.key@ == e.0@ && e.1.fit() }
    pub open spec fn map_fit<T: Form>(es: Seq<(String, ContentLine)>, i: int) -> bool { forall|k: int| 0 <= k < es.len() ==> entry_fit::<T>(#[trigger] es[k], i) }
    pub open spec fn map_lines(es: Seq<(String, ContentLine)>, n: nat) -> Texts decreases n {
        if n == 0 { Seq::empty() } else { map_lines(es, (n - 1) as nat) + field_lines(es[n - 1].0@, es[n - 1].1) }
    }
    pub proof fn lemma_map_shown<T: Form>(es: Seq<(String, ContentLine)>, n: nat, i: int)
        requires map_fit::<T>(es, i), n <= es.len()
        ensures all_shown(map_lines(es, n), mapped(es.take(n as int)))
        decreases n
    {
        if n > 0 {
            lemma_map_shown::<T>(es, (n - 1) as nat, i);
            assert(entry_fit::<T>(es[n - 1], i));
            lemma_shown(es[n - 1].0@, es[n - 1].1);
            let (a, b) = (map_lines(es, (n - 1) as nat), field_lines(es[n - 1].0@, es[n - 1].1));
            let (r, q) = (mapped(es.take(n as int)), mapped(es.take(n - 1)));
            assert forall|k: int| 0 <= k < (a + b).len() implies shown(#[trigger] (a + b)[k], r[k]) by {
                if k < a.len() { assert((a + b)[k] == a[k]); assert(shown(a[k], q[k])); assert(q[k] == r[k]); } else { assert((a + b)[k] == b[0]); assert(shown(b[0], seq![line(es[n - 1].0@, es[n - 1].1)][0])); }
            }
        }
    }
    pub proof fn lemma_map_from(l: Texts, es: Seq<(String, ContentLine)>, n: nat)
        ensures map_from(l, es, n) == app(l, map_lines(es, n))
        decreases n
    {
        reveal(app);
        if n == 0 { assert(l + Seq::<Seq<char>>::empty() =~= l); } else {
            lemma_map_from(l, es, (n - 1) as nat);
            assert(l + map_lines(es, (n - 1) as nat) + field_lines(es[n - 1].0@, es[n - 1].1) =~= l + map_lines(es, n));
        }
    }
    pub proof fn grow_map<T: Form>(l: Texts, name: Seq<char>, fs: Seq<Lines>, n: int, es: Seq<(String, ContentLine)>)
        requires grown::<T>(l, name, fs, n), n < fs.len(), map_fit::<T>(es, n), fs[n] == mapped(es)
        ensures grown::<T>(map_from(l, es, es.len()), name, fs, n + 1)
    {
        lemma_map_shown::<T>(es, es.len(), n);
        assert(es.take(es.len() as int) =~= es);
        lemma_map_from(l, es, es.len());
        assert forall|j: int| 0 <= j < fs[n].len() implies T::tagx((#[trigger] fs[n][j]).key) == n by { assert(entry_fit::<T>(es[j], n)); }
        lemma_grow::<T>(l, name, fs, n, map_lines(es, es.len()));
    }

    // ---- read ----
    pub open spec fn upto(ls: Seq<ContentLine>, n: nat) -> Lines { lines_of(ls.take(n as int)) }
    proof fn lemma_upto(ls: Seq<ContentLine>, n: nat)
        requires 0 < n <= ls.len()
        ensures upto(ls, n).drop_last() == upto(ls, (n - 1) as nat), upto(ls, n).last() == of_line(ls[n - 1]), upto(ls, n).len() == n
    { assert(upto(ls, n).drop_last() =~= upto(ls, (n - 1) as nat)); }
    /// v comes from the last of the first n lines of that name
    pub open spec fn last_to<P: Prop>(ls: Seq<ContentLine>, n: int, v: P::V) -> bool {
        exists|i: int| 0 <= i < n && named::<P>(#[trigger] ls[i]) && P::ok(ls[i], v) && forall|j: int| i < j < n ==> !named::<P>(#[trigger] ls[j])
    }
    pub open spec fn no_bad<P: Prop>(ls: Seq<ContentLine>, n: int) -> bool { forall|j: int| 0 <= j < n && named::<P>(#[trigger] ls[j]) ==> !P::err(ls[j]) }
    pub open spec fn same_opt<V: Kept>(x: Seq<V>, v: Option<V>) -> bool { match v { Some(v) => x.len() > 0 && x.last().same(&v), None => x.len() == 0 } }
    pub proof fn lemma_read<T: Form, P: Back<V>, V: Kept>(ls: Seq<ContentLine>, n: nat, i: int, xs: Seq<V>)
        requires n <= ls.len(), tagged::<T, P>(i), sel::<T>(upto(ls, n), i) == each(P::name(), xs), can_all::<P, V>(xs)
        ensures no_bad::<P>(ls, n as int),
            forall|v: Seq<V>| #[trigger] vec_rel::<P>(ls, n, v) ==> all_same(xs, v),
            forall|v: Option<V>| #[trigger] opt_rel::<P>(ls, n, v) ==> same_opt(xs, v),
            forall|v: V| #[trigger] last_to::<P>(ls, n as int, v) ==> same_opt(xs, Some(v)),
            xs.len() > 0 ==> exists|j: int| 0 <= j < n && named::<P>(#[trigger] ls[j]),
        decreases n
    {
        reveal(vec_rel); reveal(opt_rel);
        let r = each(P::name(), xs);
        if n == 0 {
            assert(r.len() == 0);
        } else {
            lemma_upto(ls, n);
            let cl = ls[n - 1];
            let m = (n - 1) as nat;
            if named::<P>(cl) {
                assert(T::tagx(cl.key@) == i);
                let d = xs.drop_last();
                assert(r.len() > 0);
                assert(sel::<T>(upto(ls, m), i).push(of_line(cl)) == r);
                assert(sel::<T>(upto(ls, m), i) =~= r.drop_last());
                assert(r.drop_last() =~= each(P::name(), d));
                assert(r.last() == line(P::name(), xs.last()));
                assert(of_line(cl) == r.last());
                assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).fit() && P::can(d[k]) by { assert(d[k] == xs[k]); }
                lemma_read::<T, P, V>(ls, m, i, d);
                assert(xs[xs.len() - 1].fit() && P::can(xs[xs.len() - 1]));
                P::back(xs.last(), cl);
                assert forall|v: Seq<V>| #[trigger] vec_rel::<P>(ls, n, v) implies all_same(xs, v) by {
                    assert(vec_rel::<P>(ls, m, v.drop_last()));
                    assert(all_same(d, v.drop_last()));
                    assert forall|k: int| 0 <= k < xs.len() implies (#[trigger] xs[k]).same(&v[k]) by { if k < d.len() { assert(d[k].same(&v.drop_last()[k])); } }
                }
                assert forall|v: V| #[trigger] last_to::<P>(ls, n as int, v) implies same_opt(xs, Some(v)) by {
                    let i = choose|i: int| 0 <= i < n && named::<P>(#[trigger] ls[i]) && P::ok(ls[i], v) && forall|j: int| i < j < n ==> !named::<P>(#[trigger] ls[j]);
                    assert(!(i < n - 1) || !named::<P>(ls[n - 1]));
                }
            } else {
                assert(T::tagx(cl.key@) != i);
                lemma_read::<T, P, V>(ls, m, i, xs);
                assert forall|v: Seq<V>| #[trigger] vec_rel::<P>(ls, n, v) implies all_same(xs, v) by { assert(vec_rel::<P>(ls, m, v)); }
                assert forall|v: Option<V>| #[trigger] opt_rel::<P>(ls, n, v) implies same_opt(xs, v) by { assert(opt_rel::<P>(ls, m, v)); }
                assert forall|v: V| #[trigger] last_to::<P>(ls, n as int, v) implies same_opt(xs, Some(v)) by {
                    let i = choose|i: int| 0 <= i < n && named::<P>(#[trigger] ls[i]) && P::ok(ls[i], v) && forall|j: int| i < j < n ==> !named::<P>(#[trigger] ls[j]);
                    assert(i != n - 1);
                    assert(last_to::<P>(ls, m as int, v));
                }
            }
        }
    }
    pub proof fn read_req<T: Form, P: Back<V>, V: Kept>(ls: Seq<ContentLine>, i: int, x: V)
        requires tagged::<T, P>(i), sel::<T>(lines_of(ls), i) == each(P::name(), just(x)), can_all::<P, V>(just(x))
        ensures !last_bad::<P>(ls), forall|v: V| #[trigger] last_rel::<P>(ls, v) ==> x.same(&v)
    {
        assert(ls.take(ls.len() as int) =~= ls);
        lemma_read::<T, P, V>(ls, ls.len(), i, just(x));
        assert forall|v: V| #[trigger] last_rel::<P>(ls, v) implies x.same(&v) by { assert(last_to::<P>(ls, ls.len() as int, v)); assert(just(x).last() == x); }
    }
    pub proof fn read_opt<T: Form, P: Back<V>, V: Kept>(ls: Seq<ContentLine>, i: int, x: Option<V>)
        requires tagged::<T, P>(i), sel::<T>(lines_of(ls), i) == each(P::name(), maybe(x)), can_all::<P, V>(maybe(x))
        ensures !some_bad::<P>(ls), forall|v: Option<V>| #[trigger] opt_rel::<P>(ls, ls.len(), v) ==> same_opt(maybe(x), v)
    {
        assert(ls.take(ls.len() as int) =~= ls);
        lemma_read::<T, P, V>(ls, ls.len(), i, maybe(x));
    }
    pub proof fn read_vec<T: Form, P: Back<V>, V: Kept>(ls: Seq<ContentLine>, i: int, xs: Seq<V>)
        requires tagged::<T, P>(i), sel::<T>(lines_of(ls), i) == each(P::name(), xs), can_all::<P, V>(xs)
        ensures !some_bad::<P>(ls), forall|v: Seq<V>| #[trigger] vec_rel::<P>(ls, ls.len(), v) ==> all_same(xs, v)
    {
        assert(ls.take(ls.len() as int) =~= ls);
        lemma_read::<T, P, V>(ls, ls.len(), i, xs);
    }
    proof fn lemma_chunk<P: BackList<E>, E: Kept>(c: Seq<E>, cl: ContentLine)
        requires chunk_ok(c), of_line(cl) == chunk(P::name(), c)
        ensures !P::err(cl), forall|v: Vec<E>| #[trigger] P::ok(cl, v) ==> all_same(c, v@)
    {
        if c.len() == 1 { assert(c[0].fit()); P::back_one(c[0], cl); assert(c =~= seq![c[0]]); } else { P::back_list(c, cl); }
    }
    proof fn lemma_same_add<E: Kept>(a: Seq<E>, b: Seq<E>, v: Seq<E>, w: Seq<E>)
        requires all_same(a, v), all_same(b, w)
        ensures all_same(a + b, v + w)
    {
        assert forall|k: int| 0 <= k < (a + b).len() implies (#[trigger] (a + b)[k]).same(&(v + w)[k]) by {
            if k < a.len() { assert((a + b)[k] == a[k]); assert(a[k].same(&v[k])); } else { assert((a + b)[k] == b[k - a.len()]); assert(b[k - a.len()].same(&w[k - a.len()])); }
        }
    }
    proof fn lemma_read_list<T: Form, P: BackList<E>, E: Kept>(ls: Seq<ContentLine>, n: nat, i: int, cs: Seq<Seq<E>>)
        requires n <= ls.len(), tagged::<T, P>(i), sel::<T>(upto(ls, n), i) == chunks(P::name(), cs), chunks_ok(cs)
        ensures no_bad::<P>(ls, n as int), forall|v: Seq<E>| #[trigger] list_rel::<E, P>(ls, n, v) ==> all_same(glued(cs), v)
        decreases n
    {
        reveal(list_rel);
        let r = chunks(P::name(), cs);
        if n == 0 {
            assert(r.len() == 0);
        } else {
            lemma_upto(ls, n);
            let cl = ls[n - 1];
            let m = (n - 1) as nat;
            if named::<P>(cl) {
                assert(T::tagx(cl.key@) == i);
                let d = cs.drop_last();
                assert(sel::<T>(upto(ls, m), i).push(of_line(cl)) == r);
                assert(r.len() > 0);
                assert(sel::<T>(upto(ls, m), i) =~= r.drop_last());
                assert(r.drop_last() =~= chunks(P::name(), d));
                assert(r.last() == chunk(P::name(), cs.last()));
                assert forall|k: int| 0 <= k < d.len() implies chunk_ok(#[trigger] d[k]) by { assert(d[k] == cs[k]); }
                lemma_read_list::<T, P, E>(ls, m, i, d);
                assert(chunk_ok(cs[cs.len() - 1]));
                lemma_chunk::<P, E>(cs.last(), cl);
                assert forall|v: Seq<E>| #[trigger] list_rel::<E, P>(ls, n, v) implies all_same(glued(cs), v) by {
                    let (w, c) = choose|w: Seq<E>, c: Vec<E>| #[trigger] some_vals(w) && list_rel::<E, P>(ls, (n - 1) as nat, w) && #[trigger] P::ok(ls[n - 1], c) && v == w + c@;
                    lemma_same_add(glued(d), cs.last(), w, c@);
                }
            } else {
                assert(T::tagx(cl.key@) != i);
                lemma_read_list::<T, P, E>(ls, m, i, cs);
                assert forall|v: Seq<E>| #[trigger] list_rel::<E, P>(ls, n, v) implies all_same(glued(cs), v) by { assert(list_rel::<E, P>(ls, m, v)); }
            }
        }
    }
    pub proof fn read_list<T: Form, P: BackList<E>, E: Kept>(ls: Seq<ContentLine>, i: int, xs: Seq<E>)
        requires tagged::<T, P>(i), sel::<T>(lines_of(ls), i) == chunks(P::name(), cut(xs)), all_fit(xs)
        ensures !some_bad::<P>(ls), forall|v: Seq<E>| #[trigger] list_rel::<E, P>(ls, ls.len(), v) ==> all_same(xs, v)
    {
        assert(ls.take(ls.len() as int) =~= ls);
        lemma_cut(xs);
        lemma_read_list::<T, P, E>(ls, ls.len(), i, cut(xs));
    }
    pub open spec fn as_lines(m: Map<Seq<char>, ContentLine>) -> Map<Seq<char>, Line> { m.map_values(|l: ContentLine| of_line(l)) }
    pub open spec fn last_each(rs: Lines) -> Map<Seq<char>, Line> decreases rs.len() {
        if rs.len() == 0 { Map::empty() } else { last_each(rs.drop_last()).insert(rs.last().key, rs.last()) }
    }
    pub open spec fn same_map(a: BTreeMap<String, ContentLine>, b: BTreeMap<String, ContentLine>) -> bool { as_lines(b.map()) == as_lines(a.map()) }
    proof fn lemma_mapped<T: Form>(es: Seq<(String, ContentLine)>, i: int)
        requires map_fit::<T>(es, i)
        ensures last_each(mapped(es)) == as_lines(kv(es))
        decreases es.len()
    {
        if es.len() == 0 { assert(as_lines(kv(es)) =~= Map::empty()); } else {
            let d = es.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies entry_fit::<T>(#[trigger] d[k], i) by { assert(d[k] == es[k]); }
            lemma_mapped::<T>(d, i);
            assert(mapped(es).drop_last() =~= mapped(d));
            let e = es.last();
            assert(entry_fit::<T>(es[es.len() - 1], i));
            lemma_esc_plain(e.1.value@);
            lemma_params_kept(e.1.params);
            assert(line(e.0@, e.1) == of_line(e.1));
            assert(as_lines(kv(es)) =~= as_lines(kv(d)).insert(e.0@, of_line(e.1)));
        }
    }
    proof fn lemma_others<T: Form>(ls: Seq<ContentLine>, n: nat, i: int, keep: spec_fn(Seq<char>) -> bool)
        requires n <= ls.len(), forall|k: Seq<char>| #[trigger] keep(k) == (T::tagx(k) == i)
        ensures as_lines(others(ls, n, keep)) == last_each(sel::<T>(upto(ls, n), i))
        decreases n
    {
        if n == 0 { assert(as_lines(others(ls, n, keep)) =~= Map::empty()); } else {
            let m = (n - 1) as nat;
            lemma_others::<T>(ls, m, i, keep);
            lemma_upto(ls, n);
            let cl = ls[n - 1];
            assert(keep(cl.key@) == (T::tagx(cl.key@) == i));
            if keep(cl.key@) {
                let s = sel::<T>(upto(ls, n), i);
                assert(s.drop_last() =~= sel::<T>(upto(ls, m), i));
                assert(as_lines(others(ls, n, keep)) =~= as_lines(others(ls, m, keep)).insert(cl.key@, of_line(cl)));
            }
        }
    }
    pub open spec fn keeps<T: Form>(keep: spec_fn(Seq<char>) -> bool, i: int) -> bool { forall|k: Seq<char>| #[trigger] keep(k) == (T::tagx(k) == i) }
    pub proof fn read_map<T: Form>(ls: Seq<ContentLine>, i: int, keep: spec_fn(Seq<char>) -> bool, x: BTreeMap<String, ContentLine>, v: BTreeMap<String, ContentLine>)
        requires keeps::<T>(keep, i), sel::<T>(lines_of(ls), i) == mapped(x@), map_fit::<T>(x@, i), v.map() == others(ls, ls.len(), keep)
        ensures same_map(x, v)
    {
        assert(ls.take(ls.len() as int) =~= ls);
        lemma_others::<T>(ls, ls.len(), i, keep);
        lemma_mapped::<T>(x@, i);
    }

    // ---- blocks ----
    pub proof fn lemma_ended_add(a: Texts, b: Texts)
        ensures ended(a + b) == ended(a) + ended(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(ended(a) + ended(b) =~= ended(a)); } else {
            lemma_ended_add(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(ended(a + b) =~= ended(a) + ended(b));
        }
    }
    pub proof fn lemma_ended_one(x: Seq<char>)
        ensures ended(seq![x]) == x + crlf_end()
    { assert(seq![x].drop_last() =~= Seq::empty()); assert(ended(seq![x].drop_last()) =~= Seq::<char>::empty()); assert(ended(seq![x]) =~= x + crlf_end()); }
    pub proof fn lemma_after(p: Seq<char>, t: Seq<char>)
        ensures after(p + t, p) == Some(t)
    { assert((p + t).take(p.len() as int) =~= p); assert((p + t).skip(p.len() as int) =~= t); }
    pub open spec fn bare(n: Seq<char>) -> bool { n.len() > 0 && no_breaks(n) }
    /// a text opens one kind of component only
    pub proof fn lemma_one_title(i: Seq<char>, a: Seq<char>, b: Seq<char>)
        requires bare(a), bare(b), after(i, opens(a)) is Some, after(i, opens(b)) is Some
        ensures a == b
    {
        reveal_strlit("BEGIN:"); reveal_strlit("\r\n");
        assert(i.take(opens(a).len() as int) == opens(a) && i.take(opens(b).len() as int) == opens(b));
        assert forall|k: int| 0 <= k < opens(a).len() implies i[k] == opens(a)[k] by { assert(i.take(opens(a).len() as int)[k] == i[k]); }
        assert forall|k: int| 0 <= k < opens(b).len() implies i[k] == opens(b)[k] by { assert(i.take(opens(b).len() as int)[k] == i[k]); }
        assert(i[6 + a.len() as int] == '\r'); assert(i[6 + b.len() as int] == '\r');
        if a.len() < b.len() { assert(i[6 + a.len() as int] == b[a.len() as int]); assert(false); }
        if b.len() < a.len() { assert(i[6 + b.len() as int] == a[b.len() as int]); assert(false); }
        assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert(i[6 + k] == a[k]); assert(i[6 + k] == b[k]); }
        assert(a =~= b);
    }
    pub proof fn lemma_closes(n: Seq<char>, t: Seq<char>)
        ensures g_line(closes(n) + t) is None, g_line("END:"@ + n + t) is None,
            forall|m: Seq<char>| after(closes(n) + t, #[trigger] opens(m)) is None, forall|m: Seq<char>| after("END:"@ + n + t, #[trigger] opens(m)) is None,
    {
        reveal(g_line); reveal_strlit("END:"); reveal_strlit("BEGIN:"); reveal_strlit("\r\n");
        let i = closes(n) + t;
        let j = "END:"@ + n + t;
        assert(i.take(4) =~= end()); assert(j.take(4) =~= end());
        assert(end().is_prefix_of(i)); assert(end().is_prefix_of(j));
        assert forall|m: Seq<char>| after(i, #[trigger] opens(m)) is None by { if opens(m).is_prefix_of(i) { assert(i.take(opens(m).len() as int)[0] == opens(m)[0]); } }
        assert forall|m: Seq<char>| after(j, #[trigger] opens(m)) is None by { if opens(m).is_prefix_of(j) { assert(j.take(opens(m).len() as int)[0] == opens(m)[0]); } }
    }
    pub proof fn lemma_opens(n: Seq<char>, t: Seq<char>)
        ensures g_line(opens(n) + t) is None, after(opens(n) + t, opens(n)) == Some(t)
    {
        reveal(g_line); reveal_strlit("BEGIN:"); reveal_strlit("\r\n");
        let i = opens(n) + t;
        assert(i.take(6) =~= begin());
        assert(begin().is_prefix_of(i));
        lemma_after(opens(n), t);
    }
    /// the text of a component: its BEGIN line, its property lines, its components, its END line
    pub open spec fn blocktext(n: Seq<char>, body: Texts, subs: Texts) -> Seq<char> { opens(n) + (ended(body) + (ended(subs) + closes(n))) }
    pub proof fn lemma_whole(n: Seq<char>, l: Texts, subs: Texts)
        requires l.len() > 0, l[0] == begins(n)
        ensures ended(l + subs + seq!["END:"@ + n]) == blocktext(n, l.skip(1), subs)
    {
        reveal_strlit("\r\n");
        assert(l =~= seq![begins(n)] + l.skip(1));
        lemma_ended_add(l + subs, seq!["END:"@ + n]);
        lemma_ended_add(l, subs);
        lemma_ended_add(seq![begins(n)], l.skip(1));
        lemma_ended_one(begins(n)); lemma_ended_one("END:"@ + n);
        assert("\r\n"@ =~= crlf_end());
        assert(begins(n) + crlf_end() =~= opens(n));
        assert("END:"@ + n + crlf_end() =~= closes(n));
        assert(ended(l + subs + seq!["END:"@ + n]) =~= blocktext(n, l.skip(1), subs));
    }
    /// the property lines of a component are read up to what is no line
    pub proof fn lemma_body<T: Form>(l: Texts, name: Seq<char>, fs: Seq<Lines>, s: Seq<char>)
        requires grown::<T>(l, name, fs, fs.len() as int), g_line(s) is None
        ensures l.len() > 0, l[0] == begins(name), g_lines(ended(l.skip(1)) + s) == (flat_lines(fs), s), all_shown(l.skip(1), flat_lines(fs))
    {
        reveal(grown);
        assert(fs.take(fs.len() as int) =~= fs);
        lemma_all(l.skip(1), flat_lines(fs), s);
    }
    pub proof fn lemma_sels<T: Form>(l: Texts, name: Seq<char>, fs: Seq<Lines>)
        requires grown::<T>(l, name, fs, fs.len() as int)
        ensures forall|i: int| 0 <= i < fs.len() ==> sel::<T>(flat_lines(fs), i) == #[trigger] fs[i]
    {
        reveal(grown);
        assert(fs.take(fs.len() as int) =~= fs);
        assert forall|i: int| 0 <= i < fs.len() implies sel::<T>(flat_lines(fs), i) == #[trigger] fs[i] by { lemma_sel::<T>(fs, fs.len() as int, i); }
    }
    /// a component without components of its own
    pub proof fn lemma_block(n: Seq<char>, body: Texts, rs: Lines, rest: Seq<char>)
        requires all_shown(body, rs)
        ensures ({
            let i = blocktext(n, body, Seq::empty()) + rest;
            &&& after(i, opens(n)) is Some
            &&& !no_block(n, i)
            &&& forall|t: Seq<char>, ls: Seq<ContentLine>| #[trigger] block(n, i, t, ls) ==> t == rest && lines_of(ls) == rs
            &&& forall|ls: Seq<ContentLine>| #[trigger] blocked(n, i, ls) ==> lines_of(ls) == rs
        })
    {
        reveal(block); reveal(blocked); reveal(no_block);
        let i = blocktext(n, body, Seq::empty()) + rest;
        let c = closes(n) + rest;
        assert(i =~= opens(n) + (ended(body) + c));
        lemma_opens(n, ended(body) + c);
        lemma_closes(n, rest);
        lemma_all(body, rs, c);
        lemma_after(closes(n), rest);
    }
}
