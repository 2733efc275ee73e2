// What was written, read again.
pub mod again {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{blen, replaced, joined};
    use crate::xstd::collections::{BTreeMap, kv};
    use crate::ser::*;
    use crate::grammar::*;
    use crate::written::*;
    use crate::unfold;
    use crate::unfold::{fold_with, fold_at, unfolded, one_line_each};
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11
    pub open spec fn crlf_end() -> Seq<char> { seq!['\r', '\n'] }
    /// a line that can be unfolded: it has a first character other than white space, and no line break
    pub open spec fn solid(l: Seq<char>) -> bool { l.len() > 0 && l[0] != ' ' && l[0] != '\t' && no_breaks(l) }
    /// lines, each with its end
    pub open spec fn ended(ls: Seq<Seq<char>>) -> Seq<char> decreases ls.len() {
        if ls.len() == 0 { Seq::empty() } else { ended(ls.drop_last()) + (ls.last() + crlf_end()) }
    }
    proof fn lemma_folds_cat(a: Seq<char>, s: Seq<char>, b: Seq<char>, t: Seq<char>)
        requires unfold::folds(a, s, true, true), unfold::folds(b, t, true, true)
        ensures unfold::folds(a + b, s + t, true, true)
        decreases a.len()
    {
        if a.len() == 0 {
            assert(a + b =~= b); assert(s + t =~= t);
        } else if fold_at(a, true, true) && unfold::folds(a.skip(3), s, true, true) {
            lemma_folds_cat(a.skip(3), s, b, t);
            assert((a + b).skip(3) =~= a.skip(3) + b);
            assert(fold_at(a + b, true, true));
        } else {
            lemma_folds_cat(a.skip(1), s.skip(1), b, t);
            assert((a + b).skip(1) =~= a.skip(1) + b);
            assert((s + t).skip(1) =~= s.skip(1) + t);
        }
    }
    proof fn lemma_folds_same(s: Seq<char>)
        ensures unfold::folds(s, s, true, true)
        decreases s.len()
    { if s.len() > 0 { lemma_folds_same(s.skip(1)); } }
    proof fn lemma_folds_gap()
        ensures unfold::folds("\r\n "@, Seq::empty(), true, true)
    {
        reveal_strlit("\r\n ");
        let f = "\r\n "@;
        assert(fold_at(f, true, true));
        assert(f.skip(3).len() == 0);
        assert(unfold::folds(f.skip(3), Seq::empty(), true, true));
    }
    proof fn lemma_joined(p: Seq<&str>)
        ensures unfold::folds(joined(p, "\r\n "@), flat(p), true, true)
        decreases p.len()
    {
        if p.len() == 0 {
        } else if p.len() == 1 {
            assert(p.drop_last().len() == 0);
            assert(flat(p.drop_last()) =~= Seq::<char>::empty());
            assert(flat(p) =~= p[0]@);
            lemma_folds_same(p[0]@);
        } else {
            lemma_joined(p.drop_last());
            lemma_folds_gap();
            lemma_folds_cat(joined(p.drop_last(), "\r\n "@), flat(p.drop_last()), "\r\n "@, Seq::empty());
            assert(flat(p.drop_last()) + Seq::<char>::empty() =~= flat(p.drop_last()));
            lemma_folds_same(p.last()@);
            lemma_folds_cat(joined(p.drop_last(), "\r\n "@) + "\r\n "@, flat(p.drop_last()), p.last()@, p.last()@);
        }
    }
    /// a written line is that line with folds put in
    pub proof fn lemma_fold_ok(x: Seq<char>, line: Seq<char>)
        requires fold_ok(x, line)
        ensures unfold::folds(x, line + crlf_end(), true, true)
    {
        reveal_strlit("\r\n");
        assert("\r\n"@ =~= crlf_end());
        if blen(line) <= 75 && x == line + "\r\n"@ {
            lemma_folds_same(x);
        } else {
            let p = choose|p: Seq<&str>| #[trigger] pieces_ok(p, line, 75) && x == joined(p, "\r\n "@) + "\r\n"@;
            lemma_joined(p);
            lemma_folds_same(crlf_end());
            lemma_folds_cat(joined(p, "\r\n "@), line, crlf_end(), crlf_end());
        }
    }
    pub open spec fn all_solid(ls: Seq<Seq<char>>) -> bool { forall|k: int| 0 <= k < ls.len() ==> solid(#[trigger] ls[k]) }
    /// a text of whole lines
    pub open spec fn whole(s: Seq<char>) -> bool { s.len() == 0 || s.len() >= 2 && s[s.len() - 2] == '\r' && s.last() == '\n' }
    proof fn lemma_one_line_each(ls: Seq<Seq<char>>)
        requires all_solid(ls)
        ensures one_line_each(ended(ls)), whole(ended(ls))
        decreases ls.len()
    {
        if ls.len() > 0 {
            assert forall|k: int| 0 <= k < ls.drop_last().len() implies solid(#[trigger] ls.drop_last()[k]) by { assert(solid(ls[k])); }
            lemma_one_line_each(ls.drop_last());
            let a = ended(ls.drop_last());
            let l = ls.last();
            let s = ended(ls);
            assert(solid(ls[ls.len() - 1]));
            let b = l + crlf_end();
            assert(s =~= a + b);
            assert forall|i: int| #![trigger s[i]] 0 <= i && i + 2 < s.len() && s[i] == '\r' && s[i + 1] == '\n' implies s[i + 2] != ' ' && s[i + 2] != '\t' by {
                if i + 2 < a.len() { assert(a[i] == s[i] && a[i + 1] == s[i + 1] && a[i + 2] == s[i + 2]); }
                else if i + 2 == a.len() { assert(s[i + 2] == l[0]); }
                else if i >= a.len() { if i - a.len() < l.len() { assert(s[i] == l[i - a.len()]); assert(false); } }
                else { assert(i + 1 == a.len()); assert(s[i + 1] == l[0]); assert(false); }
            }
            assert(s[s.len() - 2] == b[b.len() - 2] && s.last() == b[b.len() - 1]);
        }
    }
    proof fn lemma_cat(xs: Seq<Seq<char>>, ls: Seq<Seq<char>>)
        requires folds(xs, ls)
        ensures unfold::folds(cat(xs), ended(ls), true, true)
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies #[trigger] fold_ok(xs.drop_last()[k], ls.drop_last()[k]) by { assert(fold_ok(xs[k], ls[k])); }
            lemma_cat(xs.drop_last(), ls.drop_last());
            assert(fold_ok(xs[xs.len() - 1], ls[xs.len() - 1]));
            lemma_fold_ok(xs.last(), ls.last());
            lemma_folds_cat(cat(xs.drop_last()), ended(ls.drop_last()), xs.last(), ls.last() + crlf_end());
        }
    }
    /// the parsers see a written text as its lines, however long they are
    pub proof fn lemma_seen(r: Seq<char>, ls: Seq<Seq<char>>)
        requires writes(r, ls), all_solid(ls)
        ensures unfolded(r) == ended(ls)
    {
        let xs = choose|xs: Seq<Seq<char>>| #[trigger] folds(xs, ls) && r == cat(xs);
        lemma_cat(xs, ls);
        lemma_one_line_each(ls);
        unfold::lemma_unfolded(r, ended(ls));
    }

    // ---- one property ----
    /// how parameters are written
    pub open spec fn put(e: (String, String)) -> Written {
        Written { name: e.0@, text: if special(clean(e.1@)) { rc(clean(e.1@), '"', seq!['\'']) } else { clean(e.1@) }, quoted: special(clean(e.1@)) }
    }
    pub open spec fn puts(es: Seq<(String, String)>) -> Seq<Written> { es.map_values(|e: (String, String)| put(e)) }
    /// parameters that can be written: their names are names, their texts have no double quotes
    pub open spec fn param_fit(e: (String, String)) -> bool { all(Cls::Name, e.0@) && !e.1@.contains('"') }
    pub open spec fn params_fit(es: Seq<(String, String)>) -> bool { forall|k: int| 0 <= k < es.len() ==> param_fit(#[trigger] es[k]) }
    proof fn lemma_clean_has(s: Seq<char>, c: char)
        requires clean(s).contains(c), c != ' '
        ensures s.contains(c)
        decreases s.len()
    {
        if s.len() > 0 {
            let k = choose|k: int| 0 <= k < clean(s).len() && clean(s)[k] == c;
            let t = s.skip(1);
            if s[0] == '\r' { lemma_clean_has(t, c); }
            else if k == 0 { assert(s[0] == c); }
            else { assert(clean(t)[k - 1] == c); lemma_clean_has(t, c); }
            if t.contains(c) { let j = choose|j: int| 0 <= j < t.len() && t[j] == c; assert(s[j + 1] == c); }
        }
    }
    proof fn lemma_put(e: (String, String))
        requires param_fit(e)
        ensures written_ok(put(e)), put(e).text == clean(e.1@), written(put(e)) == seq![';'] + e.0@ + seq!['='] + pv(e.1@)
    {
        let c = clean(e.1@);
        if c.contains('"') { lemma_clean_has(e.1@, '"'); }
        lemma_rc_id(c, '"', seq!['\'']);
        lemma_pv_safe(e.1@);
        assert forall|j: int| 0 <= j < c.len() implies cls(Cls::Quoted, #[trigger] c[j]) by { assert(c.contains(c[j])); }
        if !special(c) {
            assert forall|j: int| 0 <= j < c.len() implies cls(Cls::Attr, #[trigger] c[j]) by { assert(c.contains(c[j])); }
            if fold().is_prefix_of(c) { assert(c.take(3)[0] == fold()[0]); assert(c[0] == '\r'); }
        }
        let w = written(put(e));
        assert(w =~= seq![';'] + e.0@ + seq!['='] + pv(e.1@));
    }
    proof fn lemma_written_all_push(ps: Seq<Written>, p: Written)
        ensures written_all(ps.push(p)) == written_all(ps) + written(p)
        decreases ps.len()
    {
        let q = ps.push(p);
        if ps.len() == 0 {
            assert(q.skip(1) =~= Seq::empty());
            assert(written_all(q.skip(1)) =~= Seq::empty());
            assert(written_all(q) =~= written(p));
            assert(written_all(ps) + written(p) =~= written(p));
        } else {
            lemma_written_all_push(ps.skip(1), p);
            assert(q.skip(1) =~= ps.skip(1).push(p));
            assert(written_all(q) =~= written_all(ps) + written(p));
        }
    }
    proof fn lemma_semi(es: Seq<(String, String)>)
        requires params_fit(es)
        ensures seq![';'] + params_semi(es) == written_all(puts(es)) + seq![';']
        decreases es.len()
    {
        broadcast use crate::xstd::string::ax_str_of;
        if es.len() == 0 {
            assert(puts(es) =~= Seq::empty());
            assert(seq![';'] + params_semi(es) =~= written_all(puts(es)) + seq![';']);
        } else {
            let d = es.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies param_fit(#[trigger] d[k]) by { assert(param_fit(es[k])); }
            lemma_semi(d);
            assert(param_fit(es[es.len() - 1]));
            lemma_put(es.last());
            assert(puts(es) =~= puts(d).push(put(es.last())));
            lemma_written_all_push(puts(d), put(es.last()));
            assert(es.last().0.ts() == es.last().0@);
            assert(es.last().1.refd()@ == es.last().1@);
            assert(seq![';'] + params_semi(es) =~= (seq![';'] + params_semi(d)) + (es.last().0@ + seq!['='] + pv(es.last().1@) + seq![';']));
            assert(written_all(puts(es)) + seq![';'] =~= written_all(puts(d)) + (seq![';'] + es.last().0@ + seq!['='] + pv(es.last().1@)) + seq![';']);
        }
    }
    proof fn lemma_text(es: Seq<(String, String)>)
        requires params_fit(es), es.len() > 0
        ensures seq![';'] + params_text(es) == written_all(puts(es))
    {
        broadcast use crate::xstd::string::ax_str_of;
        let d = es.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies param_fit(#[trigger] d[k]) by { assert(param_fit(es[k])); }
        lemma_semi(d);
        assert(param_fit(es[es.len() - 1]));
        lemma_put(es.last());
        assert(puts(es) =~= puts(d).push(put(es.last())));
        lemma_written_all_push(puts(d), put(es.last()));
        assert(es.last().0.ts() == es.last().0@);
        assert(es.last().1.refd()@ == es.last().1@);
        assert(seq![';'] + params_text(es) =~= (seq![';'] + params_semi(d)) + (es.last().0@ + seq!['='] + pv(es.last().1@)));
        assert(written_all(puts(es)) =~= written_all(puts(d)) + (seq![';'] + es.last().0@ + seq!['='] + pv(es.last().1@)));
    }
    /// what is kept of a parameter list: for each name its text, without line breaks
    pub open spec fn kept(es: Seq<(String, String)>) -> Map<Seq<char>, Seq<char>> { kv(es).map_values(|v: String| clean(v@)) }
    proof fn lemma_kept(es: Seq<(String, String)>)
        requires params_fit(es)
        ensures entries(pairs(puts(es))) == kept(es)
        decreases es.len()
    {
        if es.len() == 0 {
            assert(pairs(puts(es)) =~= Seq::empty());
            assert(kept(es) =~= Map::empty());
        } else {
            let d = es.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies param_fit(#[trigger] d[k]) by { assert(param_fit(es[k])); }
            lemma_kept(d);
            assert(param_fit(es[es.len() - 1]));
            lemma_put(es.last());
            assert(pairs(puts(es)).drop_last() =~= pairs(puts(d)));
            assert(pairs(puts(es)).last() == (es.last().0@, clean(es.last().1@)));
            assert(kept(es) =~= kept(d).insert(es.last().0@, clean(es.last().1@)));
        }
    }
    /// texts without line breaks are kept as they are
    pub proof fn lemma_kept_all(es: Seq<(String, String)>)
        requires forall|k: int| 0 <= k < es.len() ==> no_breaks((#[trigger] es[k]).1@)
        ensures kept(es) == kv(es).map_values(|v: String| v@)
        decreases es.len()
    {
        if es.len() == 0 { assert(kept(es) =~= kv(es).map_values(|v: String| v@)); } else {
            let d = es.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies no_breaks((#[trigger] d[k]).1@) by { assert(d[k] == es[k]); }
            lemma_kept_all(d);
            assert(no_breaks(es[es.len() - 1].1@));
            lemma_clean_same(es.last().1@);
            assert(kept(es) =~= kept(d).insert(es.last().0@, clean(es.last().1@)));
            assert(kv(es).map_values(|v: String| v@) =~= kv(d).map_values(|v: String| v@).insert(es.last().0@, es.last().1@));
        }
    }
    proof fn lemma_clean_same(s: Seq<char>)
        requires no_breaks(s)
        ensures clean(s) == s
        decreases s.len()
    {
        if s.len() > 0 {
            assert forall|k: int| 0 <= k < s.skip(1).len() implies #[trigger] s.skip(1)[k] != '\r' && s.skip(1)[k] != '\n' by { assert(s.skip(1)[k] == s[k + 1]); }
            lemma_clean_same(s.skip(1));
            assert(s =~= seq![s[0]] + s.skip(1));
            assert(s[0] != '\r' && s[0] != '\n');
        } else { assert(clean(s) =~= s); }
    }
    pub open spec fn attr_of(es: Seq<(String, String)>) -> Option<Seq<char>> { if es.len() == 0 { None } else { Some(params_text(es)) } }
    /// a name a property can have
    pub open spec fn prop_name(n: Seq<char>) -> bool { n.len() > 0 && all(Cls::Name, n) && !reserved(n) }
    /// a property line is read as the name, the parameters and the value it was written for
    pub proof fn lemma_prop(name: Seq<char>, es: Seq<(String, String)>, v: Seq<char>, rest: Seq<char>)
        requires prop_name(name), params_fit(es), no_breaks(v)
        ensures solid(line_of(name, attr_of(es), v)),
            g_line(line_of(name, attr_of(es), v) + crlf_end() + rest) == Some((Line { key: name, params: kept(es), value: v }, rest)),
    {
        let l = line_of(name, attr_of(es), v);
        let ps = puts(es);
        assert forall|k: int| 0 <= k < ps.len() implies written_ok(#[trigger] ps[k]) by { assert(param_fit(es[k])); lemma_put(es[k]); }
        assert forall|j: int| 0 <= j < v.len() implies cls(Cls::Value, #[trigger] v[j]) by { assert(v[j] != '\r' && v[j] != '\n'); }
        if es.len() > 0 { lemma_text(es); } else { assert(ps =~= Seq::empty()); }
        let a = match attr_of(es) { Some(a) => seq![';'] + a, None => Seq::empty() };
        assert(a =~= written_all(ps));
        assert(l + crlf_end() =~= written_line(name, ps, v, crlf_end()));
        lemma_line(name, ps, v, crlf_end(), rest);
        lemma_kept(es);
        lemma_attr_safe(es);
        assert(cls(Cls::Name, name[0]));
        assert forall|k: int| 0 <= k < l.len() implies #[trigger] l[k] != '\r' && l[k] != '\n' by {
            if k < name.len() { assert(l[k] == name[k]); assert(cls(Cls::Name, name[k])); }
            else if k < name.len() + a.len() { assert(l[k] == a[k - name.len()]); }
            else if k > name.len() + a.len() { assert(l[k] == v[k - name.len() - a.len() - 1]); }
        }
        assert(l[0] == name[0]);
    }
    proof fn lemma_attr_safe(es: Seq<(String, String)>)
        requires params_fit(es)
        ensures no_breaks(written_all(puts(es)))
        decreases es.len()
    {
        if es.len() == 0 { assert(puts(es) =~= Seq::empty()); } else {
            let d = es.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies param_fit(#[trigger] d[k]) by { assert(param_fit(es[k])); }
            lemma_attr_safe(d);
            let e = es.last();
            assert(param_fit(es[es.len() - 1]));
            lemma_put(e);
            lemma_pv_safe(e.1@);
            assert(puts(es) =~= puts(d).push(put(e)));
            lemma_written_all_push(puts(d), put(e));
            let x = written(put(e));
            let w = written_all(puts(d));
            assert forall|k: int| 0 <= k < (w + x).len() implies #[trigger] (w + x)[k] != '\r' && (w + x)[k] != '\n' by {
                if k < w.len() { assert((w + x)[k] == w[k]); }
                else {
                    let j = k - w.len();
                    let n = e.0@.len();
                    assert((w + x)[k] == x[j]);
                    if 1 <= j && j < 1 + n { assert(x[j] == e.0@[j - 1]); assert(cls(Cls::Name, e.0@[j - 1])); }
                    else if j > 1 + n { assert(x[j] == pv(e.1@)[j - 2 - n]); }
                }
            }
        }
    }

    // ---- the properties of a component ----
    /// a line and what it is read as
    pub open spec fn shown(l: Seq<char>, r: Line) -> bool {
        solid(l) && forall|rest: Seq<char>| #[trigger] g_line(l + crlf_end() + rest) == Some((r, rest))
    }
    pub open spec fn all_shown(ls: Seq<Seq<char>>, rs: Seq<Line>) -> bool { ls.len() == rs.len() && forall|k: int| 0 <= k < ls.len() ==> shown(#[trigger] ls[k], rs[k]) }
    /// lines are read one after the other, up to what is no line
    pub proof fn lemma_all(ls: Seq<Seq<char>>, rs: Seq<Line>, rest: Seq<char>)
        requires all_shown(ls, rs), g_line(rest) is None
        ensures g_lines(ended(ls) + rest) == (rs, rest)
    { lemma_more(ls, rs, rest); lemma_lines_none(rest); assert(rs + Seq::<Line>::empty() =~= rs); }
    proof fn lemma_lines_none(s: Seq<char>)
        requires g_line(s) is None
        ensures g_lines(s) == (Seq::<Line>::empty(), s)
    { reveal(g_lines); }
    proof fn lemma_lines_some(s: Seq<char>)
        requires g_line(s) is Some
        ensures g_lines(s) == (seq![g_line(s).unwrap().0] + g_lines(g_line(s).unwrap().1).0, g_lines(g_line(s).unwrap().1).1)
    { reveal(g_lines); lemma_g_line(s); }
    pub proof fn lemma_more(ls: Seq<Seq<char>>, rs: Seq<Line>, rest: Seq<char>)
        requires all_shown(ls, rs)
        ensures g_lines(ended(ls) + rest) == (rs + g_lines(rest).0, g_lines(rest).1)
        decreases ls.len()
    {
        if ls.len() == 0 {
            assert(ended(ls) + rest =~= rest);
            assert(rs + g_lines(rest).0 =~= g_lines(rest).0);
        } else {
            let (d, e) = (ls.drop_last(), rs.drop_last());
            assert forall|k: int| 0 <= k < d.len() implies shown(#[trigger] d[k], e[k]) by { assert(shown(ls[k], rs[k])); }
            let r2 = ls.last() + crlf_end() + rest;
            lemma_more(d, e, r2);
            assert(shown(ls[ls.len() - 1], rs[ls.len() - 1]));
            assert(g_line(ls.last() + crlf_end() + rest) == Some((rs.last(), rest)));
            lemma_lines_some(r2);
            assert(ended(ls) + rest =~= ended(d) + r2);
            assert(e + (seq![rs.last()] + g_lines(rest).0) =~= rs + g_lines(rest).0);
        }
    }
}
