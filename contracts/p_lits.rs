// Texts of duration literals.
pub mod lits {
    use vstd::prelude::*;
    use crate::grammar::*;
    use crate::spans::*;
    use crate::xstd::num::{is_digit, all_digits, dec};
    use crate::chrono::fits;
    /// nanoseconds of n units, before and after the T
    pub open spec fn unit_ns(time: bool, c: char, n: int) -> Option<int> {
        if time {
            if c == 'H' { Some(n * 3600000000000) } else if c == 'M' { Some(n * 60000000000) } else if c == 'S' { Some(n * 1000000000) } else { None }
        } else {
            if c == 'Y' { Some(n * 365 * 86400000000000) } else if c == 'M' { Some(n * 30 * 86400000000000) } else if c == 'D' { Some(n * 86400000000000) } else { None }
        }
    }
    /// the sum of the parts in s added to acc: ds are the digits read so far
    #[verifier::opaque]
    pub open spec fn parts_ns(s: Seq<char>, time: bool, ds: Seq<char>, acc: int) -> Option<int> decreases s.len() {
        if s.len() == 0 { if ds.len() == 0 { Some(acc) } else { None } }
        else if s[0] == 'T' { if ds.len() == 0 { parts_ns(s.skip(1), true, ds, acc) } else { None } }
        else if is_digit(s[0]) { parts_ns(s.skip(1), time, ds.push(s[0]), acc) }
        else {
            match unit_ns(time, s[0], dec(ds)) {
                Some(n) => if ds.len() == 0 || dec(ds) > i64::MAX || !fits(acc + n) { None } else { parts_ns(s.skip(1), time, Seq::empty(), acc + n) },
                None => None,
            }
        }
    }
    pub open spec fn signed(neg: bool, o: Option<int>) -> Option<int> { match o { Some(n) => Some(if neg { -n } else { n }), None => None } }
    /// [-]P, then the parts
    pub open spec fn literal(s: Seq<char>) -> Option<int> {
        let neg = s.len() > 0 && s[0] == '-';
        let t = if neg { s.skip(1) } else { s };
        if t.len() > 0 && t[0] == 'P' { signed(neg, parts_ns(t.skip(1), false, Seq::empty(), 0)) } else { None }
    }
    pub proof fn lemma_end(s: Seq<char>, time: bool, ds: Seq<char>, acc: int)
        ensures s.len() == 0 ==> parts_ns(s, time, ds, acc) == (if ds.len() == 0 { Some(acc) } else { None })
    { reveal_with_fuel(parts_ns, 1); }
    pub proof fn lemma_t(s: Seq<char>, time: bool, ds: Seq<char>, acc: int)
        requires s.len() > 0, s[0] == 'T'
        ensures parts_ns(s, time, ds, acc) == (if ds.len() == 0 { parts_ns(s.skip(1), true, ds, acc) } else { None })
    { reveal_with_fuel(parts_ns, 1); }
    pub proof fn lemma_digit(s: Seq<char>, time: bool, ds: Seq<char>, acc: int)
        requires s.len() > 0, is_digit(s[0])
        ensures parts_ns(s, time, ds, acc) == parts_ns(s.skip(1), time, ds.push(s[0]), acc)
    { reveal_with_fuel(parts_ns, 1); }
    pub proof fn lemma_unit(s: Seq<char>, time: bool, ds: Seq<char>, acc: int)
        requires s.len() > 0, s[0] != 'T', !is_digit(s[0])
        ensures parts_ns(s, time, ds, acc) == (match unit_ns(time, s[0], dec(ds)) {
                Some(n) => if ds.len() == 0 || dec(ds) > i64::MAX || !fits(acc + n) { None } else { parts_ns(s.skip(1), time, Seq::empty(), acc + n) },
                None => None,
            })
    { reveal_with_fuel(parts_ns, 1); }
    // what this says of literals with parts written one after the other
    pub struct Part { pub ds: Seq<char>, pub unit: char }
    pub open spec fn good(time: bool, p: Part) -> bool { all_digits(p.ds) && p.ds.len() > 0 && dec(p.ds) <= i64::MAX && unit_ns(time, p.unit, 0) is Some }
    pub open spec fn all_good(time: bool, ps: Seq<Part>) -> bool { forall|k: int| 0 <= k < ps.len() ==> good(time, #[trigger] ps[k]) }
    pub open spec fn part_ns(time: bool, p: Part) -> int { unit_ns(time, p.unit, dec(p.ds)).unwrap() }
    pub open spec fn text(ps: Seq<Part>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { ps[0].ds.push(ps[0].unit) + text(ps.skip(1)) } }
    /// the sum of all parts, each with its own unit
    pub open spec fn total(time: bool, ps: Seq<Part>) -> int decreases ps.len() { if ps.len() == 0 { 0 } else { part_ns(time, ps[0]) + total(time, ps.skip(1)) } }
    proof fn lemma_digits(ds: Seq<char>, rest: Seq<char>, time: bool, had: Seq<char>, acc: int)
        requires all_digits(ds)
        ensures parts_ns(ds + rest, time, had, acc) == parts_ns(rest, time, had + ds, acc)
        decreases ds.len()
    {
        if ds.len() == 0 { assert(ds + rest =~= rest); assert(had + ds =~= had); } else {
            assert(is_digit(ds[0]));
            lemma_digit(ds + rest, time, had, acc);
            assert((ds + rest).skip(1) =~= ds.skip(1) + rest);
            assert forall|k: int| 0 <= k < ds.skip(1).len() implies is_digit(#[trigger] ds.skip(1)[k]) by { assert(is_digit(ds[k + 1])); }
            lemma_digits(ds.skip(1), rest, time, had.push(ds[0]), acc);
            assert(had.push(ds[0]) + ds.skip(1) =~= had + ds);
        }
    }
    proof fn lemma_nonneg(time: bool, ps: Seq<Part>)
        requires all_good(time, ps)
        ensures total(time, ps) >= 0, ps.len() > 0 ==> part_ns(time, ps[0]) >= 0 && all_good(time, ps.skip(1)) && total(time, ps.skip(1)) >= 0
        decreases ps.len()
    {
        if ps.len() > 0 {
            assert(good(time, ps[0]));
            lemma_dec_pos(ps[0].ds);
            assert(part_ns(time, ps[0]) >= 0);
            assert forall|k: int| 0 <= k < ps.skip(1).len() implies good(time, #[trigger] ps.skip(1)[k]) by { assert(good(time, ps[k + 1])); }
            lemma_nonneg(time, ps.skip(1));
        }
    }
    pub proof fn lemma_parts(time: bool, ps: Seq<Part>, rest: Seq<char>, acc: int)
        requires all_good(time, ps), acc >= 0, fits(acc)
        ensures parts_ns(text(ps) + rest, time, Seq::empty(), acc) == (if fits(acc + total(time, ps)) { parts_ns(rest, time, Seq::empty(), acc + total(time, ps)) } else { None })
        decreases ps.len()
    {
        if ps.len() == 0 { assert(text(ps) + rest =~= rest); } else {
            let p = ps[0];
            lemma_nonneg(time, ps);
            assert(good(time, p));
            let t = seq![p.unit] + text(ps.skip(1)) + rest;
            assert(text(ps) + rest =~= p.ds + t);
            lemma_digits(p.ds, t, time, Seq::empty(), acc);
            assert(Seq::<char>::empty() + p.ds =~= p.ds);
            lemma_unit(t, time, p.ds, acc);
            assert(t.skip(1) =~= text(ps.skip(1)) + rest);
            if fits(acc + part_ns(time, p)) { lemma_parts(time, ps.skip(1), rest, acc + part_ns(time, p)); }
        }
    }
    pub open spec fn opt_time(ts: Option<Seq<Part>>) -> Seq<char> { match ts { Some(ts) => seq!['T'] + text(ts), None => Seq::empty() } }
    pub open spec fn opt_total(ts: Option<Seq<Part>>) -> int { match ts { Some(ts) => total(true, ts), None => 0 } }
    /// A literal is the signed sum of its parts, or an error when that does not fit.
    pub proof fn lemma_literal(neg: bool, ds: Seq<Part>, ts: Option<Seq<Part>>)
        requires all_good(false, ds), ts matches Some(t) ==> all_good(true, t)
        ensures ({
            let n = total(false, ds) + opt_total(ts);
            literal((if neg { seq!['-', 'P'] } else { seq!['P'] }) + text(ds) + opt_time(ts)) == (if fits(n) { Some(if neg { -n } else { n }) } else { None })
        })
    {
        let s = (if neg { seq!['-', 'P'] } else { seq!['P'] }) + text(ds) + opt_time(ts);
        let t = if neg { s.skip(1) } else { s };
        assert(s[0] == (if neg { '-' } else { 'P' }));
        assert(t[0] == 'P');
        assert(t.skip(1) =~= text(ds) + opt_time(ts));
        lemma_nonneg(false, ds);
        lemma_parts(false, ds, opt_time(ts), 0);
        let n = total(false, ds);
        match ts {
            Some(ts) => {
                lemma_nonneg(true, ts);
                if fits(n) {
                    lemma_t(opt_time(Some(ts)), false, Seq::empty(), n);
                    assert(opt_time(Some(ts)).skip(1) =~= text(ts) + Seq::empty());
                    lemma_parts(true, ts, Seq::empty(), n);
                    lemma_end(Seq::empty(), true, Seq::empty(), n + total(true, ts));
                }
            },
            None => { lemma_end(Seq::empty(), false, Seq::empty(), n); },
        }
    }
    /// without a P there is no literal; an unknown unit is an error
    pub proof fn lemma_no_literal(neg: bool, ds: Seq<Part>, ts: Option<Seq<Part>>, num: Seq<char>, bad: Seq<char>)
        requires all_good(false, ds), ts matches Some(t) ==> all_good(true, t), all_digits(num), bad.len() > 0, bad[0] != 'T', !is_digit(bad[0]), unit_ns(ts is Some, bad[0], 0) is None
        ensures literal((if neg { seq!['-', 'P'] } else { seq!['P'] }) + text(ds) + opt_time(ts) + num + bad) is None
    {
        let s = (if neg { seq!['-', 'P'] } else { seq!['P'] }) + text(ds) + opt_time(ts) + num + bad;
        let t = if neg { s.skip(1) } else { s };
        assert(s[0] == (if neg { '-' } else { 'P' }));
        assert(t[0] == 'P');
        let rest = opt_time(ts) + num + bad;
        assert(t.skip(1) =~= text(ds) + rest);
        lemma_nonneg(false, ds);
        lemma_parts(false, ds, rest, 0);
        let n = total(false, ds);
        match ts {
            Some(ts) => {
                lemma_nonneg(true, ts);
                if fits(n) {
                    lemma_t(rest, false, Seq::empty(), n);
                    assert(rest.skip(1) =~= text(ts) + (num + bad));
                    lemma_parts(true, ts, num + bad, n);
                    lemma_digits(num, bad, true, Seq::empty(), n + total(true, ts));
                    lemma_unit(bad, true, Seq::empty() + num, n + total(true, ts));
                }
            },
            None => {
                assert(rest =~= num + bad);
                lemma_digits(num, bad, false, Seq::empty(), n);
                lemma_unit(bad, false, Seq::empty() + num, n);
            },
        }
    }
    // durations of calendars
    pub open spec fn piece(o: Option<Seq<char>>, u: char) -> Seq<char> { match o { Some(d) => d.push(u), None => Seq::empty() } }
    pub open spec fn val(o: Option<Seq<char>>) -> int { match o { Some(d) => dec(d), None => 0 } }
    pub open spec fn ok_num(o: Option<Seq<char>>) -> bool { o matches Some(d) ==> d.len() > 0 && all_digits(d) && dec(d) <= i64::MAX }
    /// s does not start with a number of that unit
    pub open spec fn lacks(s: Seq<char>, u: char) -> bool { after(back(Cls::Digit, s), seq![u]) is None }
    proof fn lemma_front(d: Seq<char>, u: char, t: Seq<char>)
        requires all_digits(d), !is_digit(u)
        ensures front(Cls::Digit, d.push(u) + t) == d, back(Cls::Digit, d.push(u) + t) == seq![u] + t
    {
        let s = d.push(u) + t;
        assert forall|j: int| 0 <= j < d.len() implies cls(Cls::Digit, #[trigger] s[j]) by { assert(is_digit(d[j])); }
        lemma_run_is(Cls::Digit, s, d.len() as int);
        assert(s.take(d.len() as int) =~= d);
        assert(s.skip(d.len() as int) =~= seq![u] + t);
    }
    proof fn lemma_lacks(o: Option<Seq<char>>, v: char, t: Seq<char>, u: char)
        requires ok_num(o), !is_digit(v), u != v, lacks(t, u)
        ensures lacks(piece(o, v) + t, u)
    {
        match o {
            Some(d) => { lemma_front(d, v, t); assert((seq![v] + t)[0] == v); if after(seq![v] + t, seq![u]) is Some { assert((seq![v] + t)[0] == seq![u][0]); } },
            None => { assert(piece(o, v) + t =~= t); },
        }
    }
    proof fn lemma_lacks_end(s: Seq<char>, u: char)
        requires s.len() == 0 || !is_digit(s[0]), s.len() > 0 ==> s[0] != u
        ensures lacks(s, u)
    { lemma_run_is(Cls::Digit, s, 0); assert(s.skip(0) =~= s); }
    proof fn lemma_opt(o: Option<Seq<char>>, u: char, t: Seq<char>)
        requires ok_num(o), !is_digit(u), lacks(t, u)
        ensures opt_part(piece(o, u) + t, u) == (val(o), t)
    {
        reveal(part);
        match o {
            Some(d) => { lemma_front(d, u, t); assert((seq![u] + t).skip(1) =~= t); assert(seq![u].is_prefix_of(seq![u] + t)); },
            None => { assert(piece(o, u) + t =~= t); },
        }
    }
    pub open spec fn clock_text(t: Option<(Option<Seq<char>>, Option<Seq<char>>, Option<Seq<char>>)>) -> Seq<char> {
        match t { Some((h, i, s)) => seq!['T'] + (piece(h, 'H') + (piece(i, 'M') + piece(s, 'S'))), None => Seq::empty() }
    }
    pub open spec fn clock_nums(t: Option<(Option<Seq<char>>, Option<Seq<char>>, Option<Seq<char>>)>) -> (Option<Seq<char>>, Option<Seq<char>>, Option<Seq<char>>) {
        match t { Some(x) => x, None => (None, None, None) }
    }
    proof fn lemma_clock(h: Option<Seq<char>>, i: Option<Seq<char>>, s: Option<Seq<char>>)
        requires ok_num(h), ok_num(i), ok_num(s)
        ensures clock(clock_text(Some((h, i, s)))) == Some((val(h), val(i), val(s), Seq::<char>::empty()))
    {
        let e = Seq::<char>::empty();
        lemma_lacks_end(e, 'H'); lemma_lacks_end(e, 'M'); lemma_lacks_end(e, 'S');
        let c = piece(s, 'S');
        assert(c + e =~= c);
        lemma_lacks(s, 'S', e, 'M'); lemma_lacks(s, 'S', e, 'H');
        let b = piece(i, 'M') + c;
        lemma_lacks(i, 'M', c, 'H');
        let a = piece(h, 'H') + b;
        lemma_opt(h, 'H', b); lemma_opt(i, 'M', c); lemma_opt(s, 'S', e);
        let t = clock_text(Some((h, i, s)));
        assert(t =~= seq!['T'] + a);
        assert(seq!['T'].is_prefix_of(t)); assert(t.skip(1) =~= a);
    }
    /// A duration written as [-]P[nW][nD][T[nH][nM][nS]] is read as the signed sum of its parts, to its end.
    pub proof fn lemma_span(neg: bool, w: Option<Seq<char>>, d: Option<Seq<char>>, t: Option<(Option<Seq<char>>, Option<Seq<char>>, Option<Seq<char>>)>)
        requires ok_num(w), ok_num(d), ok_num(clock_nums(t).0), ok_num(clock_nums(t).1), ok_num(clock_nums(t).2)
        ensures ({
            let n = sum_ns(val(w), val(d), val(clock_nums(t).0), val(clock_nums(t).1), val(clock_nums(t).2));
            span((if neg { seq!['-', 'P'] } else { seq!['P'] }) + (piece(w, 'W') + (piece(d, 'D') + clock_text(t)))) == Some((if neg { -n } else { n }, Seq::<char>::empty()))
        })
    {
        let c = clock_text(t);
        match t { Some((h, i, s)) => { lemma_clock(h, i, s); assert(c[0] == 'T'); }, None => { assert(c.len() == 0); if after(c, seq!['T']) is Some { assert(c[0] == 'T'); } } }
        lemma_lacks_end(c, 'W'); lemma_lacks_end(c, 'D');
        let b = piece(d, 'D') + c;
        lemma_lacks(d, 'D', c, 'W');
        let a = piece(w, 'W') + b;
        lemma_opt(w, 'W', b); lemma_opt(d, 'D', c);
        let s = (if neg { seq!['-', 'P'] } else { seq!['P'] }) + a;
        let u = if neg { s.skip(1) } else { s };
        if neg {
            assert(seq!['-'].is_prefix_of(s));
        } else {
            assert(s[0] == 'P');
            if after(s, seq!['-']) is Some { assert(s[0] == seq!['-'][0]); }
        }
        assert(u =~= seq!['P'] + a);
        assert(seq!['P'].is_prefix_of(u)); assert(u.skip(1) =~= a);
    }
}
