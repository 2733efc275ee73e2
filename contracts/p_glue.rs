// From repeated application of a parser to the grammar's lists.
pub mod glue {
    use vstd::prelude::*;
    use crate::grammar::*;
    use crate::nom::multi::{chain, stuck, folded};
    use crate::xstd::collections::BTreeMap;
    use crate::ContentLine;
    broadcast use crate::grammar::group_grammar;
    pub open spec fn line_of(c: ContentLine) -> Line { Line { key: c.key@, params: c.params.texts(), value: c.value@ } }
    pub open spec fn lines_of(cs: Seq<ContentLine>) -> Seq<Line> { cs.map_values(|c: ContentLine| line_of(c)) }
    pub open spec fn param_of(p: (&str, &str)) -> Param { (p.0@, p.1@) }
    pub open spec fn params_of(ps: Seq<(&str, &str)>) -> Seq<Param> { ps.map_values(|p: (&str, &str)| param_of(p)) }
    // a parser of one parameter, applied again and again
    pub open spec fn one_param<'a, P: crate::nom::Parser<'a, (&'a str, &'a str)>>(p: P) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: (&'a str, &'a str)| #[trigger] p.ok(i, t, o) ==> g_param(i@) == Some((param_of(o), t@))
        &&& forall|i: &'a str| #[trigger] p.fails(i) ==> g_param(i@) is None
    }
    pub broadcast proof fn lemma_params<'a, P: crate::nom::Parser<'a, (&'a str, &'a str)>>(p: P, i: &'a str, t: &'a str, outs: Seq<(&'a str, &'a str)>)
        requires one_param(p), #[trigger] chain(p, i, t, outs), p.fails(t)
        ensures g_params(i@) == (params_of(outs), t@)
        decreases outs.len()
    {
        reveal(g_params);
        if outs.len() > 0 {
            let m = choose|m: &'a str| #[trigger] p.ok(i, m, outs[0]) && m@ != i@ && chain(p, m, t, outs.skip(1));
            lemma_params(p, m, t, outs.skip(1));
            assert(params_of(outs) =~= seq![param_of(outs[0])] + params_of(outs.skip(1)));
        } else {
            assert(params_of(outs) =~= Seq::empty());
        }
    }
    pub broadcast proof fn lemma_no_stuck_param<'a, P: crate::nom::Parser<'a, (&'a str, &'a str)>>(p: P, i: &'a str)
        requires one_param(p)
        ensures !#[trigger] stuck(p, i)
    {
        if stuck(p, i) {
            let (m, rest, outs, o) = choose|m: &'a str, rest: &'a str, outs: Seq<(&'a str, &'a str)>, o: (&'a str, &'a str)| #[trigger] chain(p, i, m, outs) && #[trigger] p.ok(m, rest, o) && m@ == rest@;
            assert(g_param(m@) == Some((param_of(o), rest@)));
        }
    }
    pub broadcast proof fn lemma_entries<I: Fn() -> BTreeMap<String, String>, G: Fn(BTreeMap<String, String>, (&str, &str)) -> BTreeMap<String, String>>(init: I, g: G, outs: Seq<(&str, &str)>, r: BTreeMap<String, String>)
        requires #[trigger] folded(init, g, outs, r),
            forall|q: BTreeMap<String, String>| #[trigger] call_ensures(init, (), q) ==> q@.len() == 0,
            forall|q: BTreeMap<String, String>, o: (&str, &str), q2: BTreeMap<String, String>| #[trigger] call_ensures(g, (q, o), q2) ==> q2.texts() == q.texts().insert(o.0@, o.1@)
        ensures r.texts() == entries(params_of(outs))
        decreases outs.len()
    {
        if outs.len() > 0 {
            let q = choose|q: BTreeMap<String, String>| folded(init, g, outs.drop_last(), q) && #[trigger] call_ensures(g, (q, outs.last()), r);
            lemma_entries(init, g, outs.drop_last(), q);
            assert(params_of(outs).drop_last() =~= params_of(outs.drop_last()));
        } else {
            assert(r.texts() =~= Map::empty());
        }
    }
    // a parser of one line, applied again and again
    pub open spec fn one_line<'a, P: crate::nom::Parser<'a, ContentLine>>(p: P) -> bool {
        &&& forall|i: &'a str, t: &'a str, o: ContentLine| #[trigger] p.ok(i, t, o) ==> g_line(i@) == Some((line_of(o), t@))
        &&& forall|i: &'a str| #[trigger] p.fails(i) ==> g_line(i@) is None
    }
    pub broadcast proof fn lemma_lines<'a, P: crate::nom::Parser<'a, ContentLine>>(p: P, i: &'a str, t: &'a str, outs: Seq<ContentLine>)
        requires one_line(p), #[trigger] chain(p, i, t, outs), p.fails(t)
        ensures g_lines(i@) == (lines_of(outs), t@)
        decreases outs.len()
    {
        reveal(g_lines);
        if outs.len() > 0 {
            let m = choose|m: &'a str| #[trigger] p.ok(i, m, outs[0]) && m@ != i@ && chain(p, m, t, outs.skip(1));
            lemma_lines(p, m, t, outs.skip(1));
            assert(lines_of(outs) =~= seq![line_of(outs[0])] + lines_of(outs.skip(1)));
        } else {
            assert(lines_of(outs) =~= Seq::empty());
        }
    }
    pub broadcast proof fn lemma_no_stuck_line<'a, P: crate::nom::Parser<'a, ContentLine>>(p: P, i: &'a str)
        requires one_line(p)
        ensures !#[trigger] stuck(p, i)
    {
        if stuck(p, i) {
            let (m, rest, outs, o) = choose|m: &'a str, rest: &'a str, outs: Seq<ContentLine>, o: ContentLine| #[trigger] chain(p, i, m, outs) && #[trigger] p.ok(m, rest, o) && m@ == rest@;
            assert(g_line(m@) == Some((line_of(o), rest@)));
        }
    }
    pub broadcast proof fn lemma_pushed<I: Fn() -> Vec<ContentLine>, G: Fn(Vec<ContentLine>, ContentLine) -> Vec<ContentLine>>(init: I, g: G, outs: Seq<ContentLine>, r: Vec<ContentLine>)
        requires #[trigger] folded(init, g, outs, r),
            forall|q: Vec<ContentLine>| #[trigger] call_ensures(init, (), q) ==> q@.len() == 0,
            forall|q: Vec<ContentLine>, o: ContentLine, q2: Vec<ContentLine>| #[trigger] call_ensures(g, (q, o), q2) ==> q2@ == q@.push(o)
        ensures r@ == outs
        decreases outs.len()
    {
        if outs.len() > 0 {
            let q = choose|q: Vec<ContentLine>| folded(init, g, outs.drop_last(), q) && #[trigger] call_ensures(g, (q, outs.last()), r);
            lemma_pushed(init, g, outs.drop_last(), q);
            assert(r@ =~= outs);
        } else {
            assert(r@ =~= outs);
        }
    }
    pub broadcast proof fn lemma_map_values_insert<K, V, W>(m: Map<K, V>, k: K, v: V, f: spec_fn(V) -> W)
        ensures #[trigger] m.insert(k, v).map_values(f) == m.map_values(f).insert(k, f(v))
    { assert(m.insert(k, v).map_values(f) =~= m.map_values(f).insert(k, f(v))); }
    pub broadcast group group_glue {lemma_map_values_insert, lemma_params, lemma_no_stuck_param, lemma_entries, lemma_lines, lemma_no_stuck_line, lemma_pushed }
}
