// A line written by the rules is read as what was written.
pub mod written {
    use vstd::prelude::*;
    use crate::grammar::*;
    broadcast use crate::grammar::lemma_run;
    pub open spec fn all(k: Cls, s: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> cls(k, #[trigger] s[j]) }
    pub proof fn lemma_split(k: Cls, a: Seq<char>, b: Seq<char>)
        requires all(k, a), b.len() > 0 ==> !cls(k, b[0])
        ensures front(k, a + b) == a, back(k, a + b) == b
    {
        lemma_run_is(k, a + b, a.len() as int);
        assert((a + b).take(a.len() as int) =~= a);
        assert((a + b).skip(a.len() as int) =~= b);
    }
    /// a parameter, its text in double quotes or not
    pub struct Written { pub name: Seq<char>, pub text: Seq<char>, pub quoted: bool }
    pub open spec fn written_ok(p: Written) -> bool {
        all(Cls::Name, p.name) && all(Cls::Quoted, p.text) && (!p.quoted ==> all(Cls::Attr, p.text) && !fold().is_prefix_of(p.text))
    }
    pub open spec fn q() -> Seq<char> { seq!['"'] }
    pub open spec fn written(p: Written) -> Seq<char> {
        seq![';'] + (p.name + (seq!['='] + if p.quoted { q() + (p.text + q()) } else { p.text }))
    }
    pub open spec fn pair(p: Written) -> Param { (p.name, p.text) }
    pub open spec fn pairs(ps: Seq<Written>) -> Seq<Param> { ps.map_values(|p: Written| pair(p)) }
    pub proof fn lemma_param(p: Written, t: Seq<char>)
        requires written_ok(p), t.len() > 0, t[0] == ';' || t[0] == ':'
        ensures g_param(written(p) + t) == Some((pair(p), t))
    {
        reveal(g_param); reveal(g_closed); reveal(g_plain); reveal(g_quoted); reveal(g_attr);
        let s = written(p) + t;
        let v = if p.quoted { q() + (p.text + q()) } else { p.text };
        let eqv = seq!['='] + v + t;
        assert(s.skip(1) =~= p.name + eqv);
        lemma_split(Cls::Name, p.name, eqv);
        if p.quoted {
            assert(eqv.take(2) =~= eqq());
            assert(eqq().is_prefix_of(eqv));
            assert(eqv.skip(2) =~= p.text + (q() + t));
            lemma_split(Cls::Quoted, p.text, q() + t);
            assert((q() + t).skip(1) =~= t);
        } else {
            assert(!eqq().is_prefix_of(eqv)) by {
                if eqq().is_prefix_of(eqv) {
                    assert(eqv.take(2)[1] == '"');
                    assert(eqv[1] == (p.text + t)[0]);
                    if p.text.len() > 0 { assert(cls(Cls::Quoted, p.text[0])); }
                }
            }
            assert(eqv.skip(1) =~= p.text + t);
            assert(!fold().is_prefix_of(p.text + t)) by {
                if fold().is_prefix_of(p.text + t) {
                    let u = p.text + t;
                    assert(u[0] == fold()[0] && u[1] == fold()[1] && u[2] == fold()[2]);
                    if p.text.len() >= 3 { assert(p.text.take(3) =~= fold()); }
                    else { assert(u[p.text.len() as int] == t[0]); }
                }
            }
            lemma_split(Cls::Attr, p.text, t);
        }
    }
    pub open spec fn written_all(ps: Seq<Written>) -> Seq<char> decreases ps.len() {
        if ps.len() == 0 { Seq::empty() } else { written(ps[0]) + written_all(ps.skip(1)) }
    }
    pub proof fn lemma_params(ps: Seq<Written>, t: Seq<char>)
        requires forall|k: int| 0 <= k < ps.len() ==> written_ok(#[trigger] ps[k]), t.len() > 0, t[0] == ':'
        ensures g_params(written_all(ps) + t) == (pairs(ps), t)
        decreases ps.len()
    {
        reveal(g_params);
        if ps.len() == 0 {
            assert(written_all(ps) + t =~= t);
            assert(pairs(ps) =~= Seq::empty());
            assert(g_param(t) is None) by { reveal(g_param); }
        } else {
            let u = written_all(ps.skip(1)) + t;
            assert(u[0] == ';' || u[0] == ':') by { if ps.len() > 1 { assert(ps.skip(1)[0] == ps[1]); } }
            lemma_param(ps[0], u);
            assert(written_all(ps) + t =~= written(ps[0]) + u);
            lemma_params(ps.skip(1), t);
            lemma_g_param(written_all(ps) + t);
            assert(pairs(ps) =~= seq![pair(ps[0])] + pairs(ps.skip(1)));
        }
    }
    pub open spec fn eol(e: Seq<char>) -> bool { e == seq!['\n'] || e == seq!['\r', '\n'] }
    /// NAME;params:VALUE ended by e
    pub open spec fn written_line(name: Seq<char>, ps: Seq<Written>, v: Seq<char>, e: Seq<char>) -> Seq<char> {
        name + (written_all(ps) + (seq![':'] + (v + e)))
    }
    pub open spec fn reserved(name: Seq<char>) -> bool { name == begin().drop_last() || name == end().drop_last() }
    pub open spec fn line_ok(name: Seq<char>, ps: Seq<Written>, v: Seq<char>) -> bool {
        all(Cls::Name, name) && !(reserved(name) && ps.len() == 0) && all(Cls::Value, v) && forall|k: int| 0 <= k < ps.len() ==> written_ok(#[trigger] ps[k])
    }
    proof fn lemma_word(w: Seq<char>, name: Seq<char>, c: char, u: Seq<char>)
        requires w.len() > 0, !cls(Cls::Name, w.last()), all(Cls::Name, w.drop_last()), all(Cls::Name, name), u.len() > 0, u[0] == c, !cls(Cls::Name, c), w.is_prefix_of(name + u)
        ensures c == w.last(), name == w.drop_last()
    {
        let s = name + u;
        lemma_split(Cls::Name, name, u);
        assert(s.take(w.len() as int) =~= w);
        assert(s =~= w.drop_last() + (seq![w.last()] + s.skip(w.len() as int))) by {
            assert forall|j: int| 0 <= j < w.len() implies s[j] == w[j] by { assert(s.take(w.len() as int)[j] == s[j]); }
        }
        lemma_split(Cls::Name, w.drop_last(), seq![w.last()] + s.skip(w.len() as int));
        assert(u == seq![w.last()] + s.skip(w.len() as int));
    }
    pub proof fn lemma_line(name: Seq<char>, ps: Seq<Written>, v: Seq<char>, e: Seq<char>, rest: Seq<char>)
        requires line_ok(name, ps, v), eol(e)
        ensures g_line(written_line(name, ps, v, e) + rest) == Some((Line { key: name, params: entries(pairs(ps)), value: v }, rest))
    {
        reveal(g_line); reveal(after_eol);
        let t = seq![':'] + (v + e) + rest;
        let u = written_all(ps) + t;
        let s = written_line(name, ps, v, e) + rest;
        assert(s =~= name + u);
        assert(u[0] == if ps.len() == 0 { ':' } else { ';' });
        lemma_split(Cls::Name, name, u);
        if begin().is_prefix_of(s) { assert(begin().drop_last() =~= seq!['B','E','G','I','N']); lemma_word(begin(), name, u[0], u); }
        if end().is_prefix_of(s) { assert(end().drop_last() =~= seq!['E','N','D']); lemma_word(end(), name, u[0], u); }
        lemma_params(ps, t);
        assert(t.skip(1) =~= v + (e + rest));
        lemma_split(Cls::Value, v, e + rest);
        assert((e + rest).skip(e.len() as int) =~= rest);
    }
    // a list of lines
    pub struct WLine { pub name: Seq<char>, pub ps: Seq<Written>, pub v: Seq<char>, pub e: Seq<char> }
    pub open spec fn wline_ok(l: WLine) -> bool { line_ok(l.name, l.ps, l.v) && eol(l.e) }
    pub open spec fn wline(l: WLine) -> Seq<char> { written_line(l.name, l.ps, l.v, l.e) }
    pub open spec fn line_is(l: WLine) -> Line { Line { key: l.name, params: entries(pairs(l.ps)), value: l.v } }
    pub open spec fn wlines(ls: Seq<WLine>) -> Seq<char> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { wline(ls[0]) + wlines(ls.skip(1)) } }
    pub proof fn lemma_lines(ls: Seq<WLine>, rest: Seq<char>)
        requires forall|k: int| 0 <= k < ls.len() ==> wline_ok(#[trigger] ls[k]), g_line(rest) is None
        ensures g_lines(wlines(ls) + rest) == (ls.map_values(|l: WLine| line_is(l)), rest)
        decreases ls.len()
    {
        reveal(g_lines);
        if ls.len() == 0 {
            assert(wlines(ls) + rest =~= rest);
            assert(ls.map_values(|l: WLine| line_is(l)) =~= Seq::empty());
        } else {
            let u = wlines(ls.skip(1)) + rest;
            assert(wlines(ls) + rest =~= wline(ls[0]) + u);
            lemma_line(ls[0].name, ls[0].ps, ls[0].v, ls[0].e, u);
            lemma_g_line(wlines(ls) + rest);
            lemma_lines(ls.skip(1), rest);
            assert(ls.map_values(|l: WLine| line_is(l)) =~= seq![line_is(ls[0])] + ls.skip(1).map_values(|l: WLine| line_is(l)));
        }
    }
}
