// A recurrence rule written and read again.
pub mod ruletrip {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{joined, has};
    use crate::xstd::fmt::{nat_text, num_text, digit};
    use crate::xstd::num::{is_digit, all_digits, dec, int_text, int_prefix, no_int_prefix};
    use crate::ser::*;
    use crate::grammar::*;
    use crate::written::all;
    use crate::rules::*;
    use crate::rule_text::{part, parts};
    use crate::trip::*;
    use crate::properties::*;
    use crate::properties::recur::*;
    use crate::parser::datatype::{pieces, comma, dodt_ok, dodt_err};
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11,C17
    // ---- items ----
    pub open spec fn item_text(p: Param) -> Seq<char> { p.0 + seq!['='] + p.1 + seq![';'] }
    pub open spec fn its(ps: Seq<Param>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { its(ps.drop_last()) + item_text(ps.last()) } }
    pub open spec fn item_fit(p: Param) -> bool { all(Cls::Name, p.0) && all(Cls::Item, p.1) }
    pub open spec fn items_fit(ps: Seq<Param>) -> bool { forall|k: int| 0 <= k < ps.len() ==> item_fit(#[trigger] ps[k]) }
    proof fn lemma_one_item(p: Param, e: Seq<char>, rest: Seq<char>)
        requires item_fit(p), e == seq![';'] || (e.len() == 0 && rest.len() == 0)
        ensures g_item(p.0 + seq!['='] + p.1 + e + rest) == Some((p, rest))
    {
        reveal(g_item);
        let s = p.0 + seq!['='] + p.1 + e + rest;
        assert forall|j: int| 0 <= j < p.0.len() implies cls(Cls::Name, #[trigger] s[j]) by { assert(s[j] == p.0[j]); }
        assert(s[p.0.len() as int] == '=');
        lemma_run_is(Cls::Name, s, p.0.len() as int);
        assert(front(Cls::Name, s) =~= p.0);
        let t = p.1 + e + rest;
        assert(back(Cls::Name, s) =~= seq!['='] + t);
        assert(back(Cls::Name, s).skip(1) =~= t);
        assert forall|j: int| 0 <= j < p.1.len() implies cls(Cls::Item, #[trigger] t[j]) by { assert(t[j] == p.1[j]); }
        if e.len() > 0 { assert(t[p.1.len() as int] == ';'); }
        lemma_run_is(Cls::Item, t, p.1.len() as int);
        assert(front(Cls::Item, t) =~= p.1);
        assert(back(Cls::Item, t) =~= e + rest);
        if e.len() > 0 { assert((e + rest).skip(1) =~= rest); } else { assert(e + rest =~= rest); }
    }
    proof fn lemma_items_more(ps: Seq<Param>, rest: Seq<char>)
        requires items_fit(ps)
        ensures g_items(its(ps) + rest) == (ps + g_items(rest).0, g_items(rest).1)
        decreases ps.len()
    {
        if ps.len() == 0 { assert(its(ps) + rest =~= rest); assert(ps + g_items(rest).0 =~= g_items(rest).0); } else {
            let d = ps.drop_last();
            let p = ps.last();
            assert forall|k: int| 0 <= k < d.len() implies item_fit(#[trigger] d[k]) by { assert(item_fit(ps[k])); }
            assert(item_fit(ps[ps.len() - 1]));
            let t = item_text(p) + rest;
            lemma_items_more(d, t);
            lemma_one_item(p, seq![';'], rest);
            assert(t == p.0 + seq!['='] + p.1 + seq![';'] + rest);
            reveal(g_items);
            assert(g_items(t) == (seq![p] + g_items(rest).0, g_items(rest).1));
            assert(its(ps) + rest =~= its(d) + t);
            assert(d + (seq![p] + g_items(rest).0) =~= ps + g_items(rest).0);
        }
    }
    /// the items of a text without the last semicolon
    proof fn lemma_items_read(ps: Seq<Param>)
        requires items_fit(ps), ps.len() > 0
        ensures items(its(ps).drop_last()) == Some(entries(ps))
    {
        let d = ps.drop_last();
        let p = ps.last();
        assert forall|k: int| 0 <= k < d.len() implies item_fit(#[trigger] d[k]) by { assert(item_fit(ps[k])); }
        assert(item_fit(ps[ps.len() - 1]));
        let e = Seq::<char>::empty();
        let t = p.0 + seq!['='] + p.1 + e + e;
        lemma_one_item(p, e, e);
        lemma_items_more(d, t);
        reveal(g_items);
        assert(g_items(e) == (Seq::<Param>::empty(), e)) by { reveal(g_item); }
        assert(g_items(t).0 =~= seq![p]);
        assert(its(ps).drop_last() =~= its(d) + t);
        assert(d + seq![p] =~= ps);
    }
    // ---- the parts that are there ----
    pub open spec fn add(ps: Seq<Param>, n: Seq<char>, t: Seq<char>) -> Seq<Param> { if t.len() == 0 { ps } else { ps.push((n, t)) } }
    pub open spec fn listed(ns: Seq<Seq<char>>, ts: Seq<Seq<char>>, n: nat) -> Seq<Param> decreases n { if n == 0 { Seq::empty() } else { add(listed(ns, ts, (n - 1) as nat), ns[n - 1], ts[n - 1]) } }
    pub open spec fn written(ns: Seq<Seq<char>>, ts: Seq<Seq<char>>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { written(ns, ts, (n - 1) as nat) + part(ns[n - 1], ts[n - 1]) } }
    pub open spec fn texts_safe(ns: Seq<Seq<char>>, ts: Seq<Seq<char>>) -> bool {
        ns.len() == ts.len() && forall|k: int| 0 <= k < ns.len() ==> all(Cls::Name, #[trigger] ns[k]) && all(Cls::Item, ts[k])
    }
    proof fn lemma_listed(ns: Seq<Seq<char>>, ts: Seq<Seq<char>>, n: nat)
        requires n <= ns.len(), texts_safe(ns, ts)
        ensures its(listed(ns, ts, n)) == written(ns, ts, n), items_fit(listed(ns, ts, n))
        decreases n
    {
        if n > 0 {
            lemma_listed(ns, ts, (n - 1) as nat);
            let ps = listed(ns, ts, (n - 1) as nat);
            let (x, t) = (ns[n - 1], ts[n - 1]);
            if t.len() > 0 {
                assert(ps.push((x, t)).drop_last() =~= ps);
                assert(item_text((x, t)) =~= part(x, t));
                assert(item_fit((x, t)));
            } else { assert(written(ns, ts, n) =~= written(ns, ts, (n - 1) as nat)); }
        }
    }
    pub open spec fn apart(ns: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ns.len() ==> #[trigger] ns[i] != #[trigger] ns[j] }
    proof fn lemma_listed_map(ns: Seq<Seq<char>>, ts: Seq<Seq<char>>, n: nat)
        requires n <= ns.len(), ns.len() == ts.len(), apart(ns)
        ensures
            forall|i: int| 0 <= i < n ==> entries(listed(ns, ts, n)).contains_key(#[trigger] ns[i]) == (ts[i].len() > 0) && (ts[i].len() > 0 ==> entries(listed(ns, ts, n))[ns[i]] == ts[i]),
            forall|i: int| n <= i < ns.len() ==> !entries(listed(ns, ts, n)).contains_key(#[trigger] ns[i]),
        decreases n
    {
        if n > 0 {
            lemma_listed_map(ns, ts, (n - 1) as nat);
            let ps = listed(ns, ts, (n - 1) as nat);
            let (x, t) = (ns[n - 1], ts[n - 1]);
            if t.len() > 0 {
                assert(ps.push((x, t)).drop_last() =~= ps);
                assert(entries(listed(ns, ts, n)) == entries(ps).insert(x, t));
            }
            let m = entries(listed(ns, ts, n));
            assert forall|i: int| 0 <= i < n implies m.contains_key(#[trigger] ns[i]) == (ts[i].len() > 0) && (ts[i].len() > 0 ==> m[ns[i]] == ts[i]) by { if i < n - 1 { assert(ns[i] != ns[n - 1]); } }
            assert forall|i: int| n <= i < ns.len() implies !m.contains_key(#[trigger] ns[i]) by { assert(ns[n - 1] != ns[i]); }
        }
    }
    pub open spec fn names() -> Seq<Seq<char>> {
        seq!["FREQ"@, "UNTIL"@, "COUNT"@, "INTERVAL"@, "BYSECOND"@, "BYMINUTE"@, "BYHOUR"@, "BYDAY"@, "BYMONTHDAY"@, "BYYEARDAY"@, "BYWEEKNO"@, "BYMONTH"@, "BYSETPOS"@, "WKST"@]
    }
    pub open spec fn texts(r: Recur) -> Seq<Seq<char>> {
        seq![r.freq.ser(), r.until.ser(), r.count.ser(), r.interval.ser(), r.by_second.ser(), r.by_minute.ser(), r.by_hour.ser(), r.by_day.ser(), r.by_monthday.ser(), r.by_yearday.ser(), r.by_weekno.ser(), r.by_month.ser(), r.by_setpos.ser(), r.wkst.ser()]
    }
    #[verifier::opaque]
    pub open spec fn rank(k: Seq<char>) -> int {
        if k == "FREQ"@ { 0 } else if k == "UNTIL"@ { 1 } else if k == "COUNT"@ { 2 } else if k == "INTERVAL"@ { 3 } else if k == "BYSECOND"@ { 4 } else if k == "BYMINUTE"@ { 5 } else if k == "BYHOUR"@ { 6 }
        else if k == "BYDAY"@ { 7 } else if k == "BYMONTHDAY"@ { 8 } else if k == "BYYEARDAY"@ { 9 } else if k == "BYWEEKNO"@ { 10 } else if k == "BYMONTH"@ { 11 } else if k == "BYSETPOS"@ { 12 } else if k == "WKST"@ { 13 } else { -1 }
    }
    proof fn lemma_names()
        ensures apart(names()), forall|k: int| 0 <= k < 14 ==> all(Cls::Name, #[trigger] names()[k])
    {
        reveal(rank);
        reveal_strlit("FREQ"); reveal_strlit("UNTIL"); reveal_strlit("COUNT"); reveal_strlit("INTERVAL"); reveal_strlit("BYSECOND"); reveal_strlit("BYMINUTE"); reveal_strlit("BYHOUR"); reveal_strlit("BYDAY");
        reveal_strlit("BYMONTHDAY"); reveal_strlit("BYYEARDAY"); reveal_strlit("BYWEEKNO"); reveal_strlit("BYMONTH"); reveal_strlit("BYSETPOS"); reveal_strlit("WKST");
        assert forall|k: int| 0 <= k < 14 implies rank(#[trigger] names()[k]) == k by { }
        assert forall|k: int| 0 <= k < 14 implies all(Cls::Name, #[trigger] names()[k]) by { }
    }
    proof fn lemma_parts(r: Recur)
        ensures written(names(), texts(r), 14) == parts(r)
    {
        hide(part); hide(list_text); hide(num_text);
        let (ns, ts) = (names(), texts(r));
        reveal_with_fuel(written, 15);
        assert(written(ns, ts, 1) =~= part("FREQ"@, r.freq.ser()));
    }
    // ---- numbers ----
    pub open spec fn clean_item(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> is_digit(#[trigger] s[k]) || s[k] == '-' || 'A' <= s[k] <= 'Z' }
    proof fn lemma_num_text(n: int)
        ensures clean_item(num_text(n)), num_text(n).len() > 0, int_text(num_text(n), n, true), is_digit(num_text(n)[0]) || num_text(n)[0] == '-',
            forall|rest: Seq<char>| (rest.len() == 0 || !is_digit(rest[0])) ==> #[trigger] int_prefix(num_text(n) + rest, rest, n)
    {
        let a = if n < 0 { -n } else { n };
        lemma_nat_text(a);
        let d = nat_text(a);
        let g = if n < 0 { seq!['-'] } else { Seq::empty() };
        assert(g + d =~= num_text(n));
        assert forall|k: int| 0 <= k < num_text(n).len() implies is_digit(#[trigger] num_text(n)[k]) || num_text(n)[k] == '-' || 'A' <= num_text(n)[k] <= 'Z' by {
            if k >= g.len() { assert(num_text(n)[k] == d[k - g.len()]); assert(is_digit(d[k - g.len()])); }
        }
        assert(is_digit(d[0]));
        assert forall|rest: Seq<char>| (rest.len() == 0 || !is_digit(rest[0])) implies #[trigger] int_prefix(num_text(n) + rest, rest, n) by { assert((g + d) + rest == num_text(n) + rest); }
    }
    pub open spec fn signed(sign: Seq<char>, d: Seq<char>, rest: Seq<char>, v: int) -> bool {
        all_digits(d) && d.len() > 0 && (rest.len() > 0 ==> !is_digit(rest[0])) && ((sign == seq!['-'] && v == -dec(d)) || ((sign == seq!['+'] || sign.len() == 0) && v == dec(d)))
    }
    proof fn lemma_prefix(s: Seq<char>, r: Seq<char>, v: int, q: Seq<char>, w: int)
        requires int_prefix(s, r, v), int_prefix(s, q, w)
        ensures r == q, v == w
    {
        let (g, d) = choose|g: Seq<char>, d: Seq<char>| #[trigger] (g + d) + r == s && all_digits(d) && d.len() > 0 && (r.len() > 0 ==> !is_digit(r[0])) && ((g == seq!['-'] && v == -dec(d)) || ((g == seq!['+'] || g.len() == 0) && v == dec(d)));
        let (h, e) = choose|g: Seq<char>, d: Seq<char>| #[trigger] (g + d) + q == s && all_digits(d) && d.len() > 0 && (q.len() > 0 ==> !is_digit(q[0])) && ((g == seq!['-'] && w == -dec(d)) || ((g == seq!['+'] || g.len() == 0) && w == dec(d)));
        assert(is_digit(d[0])); assert(is_digit(e[0]));
        assert(s[0] == if g.len() == 0 { d[0] } else { g[0] });
        assert(s[0] == if h.len() == 0 { e[0] } else { h[0] });
        assert(g =~= h);
        let b = g.len() as int;
        assert forall|k: int| 0 <= k < d.len() implies s[b + k] == #[trigger] d[k] by { }
        assert forall|k: int| 0 <= k < e.len() implies s[b + k] == #[trigger] e[k] by { }
        if d.len() < e.len() { assert(is_digit(e[d.len() as int])); assert(s[b + d.len()] == e[d.len() as int]); assert(s[b + d.len()] == r[0]); assert(false); }
        if e.len() < d.len() { assert(is_digit(d[e.len() as int])); assert(s[b + e.len()] == d[e.len() as int]); assert(s[b + e.len()] == q[0]); assert(false); }
        assert(d =~= e) by { assert forall|k: int| 0 <= k < d.len() implies d[k] == e[k] by { assert(s[b + k] == d[k]); assert(s[b + k] == e[k]); } }
        assert(r =~= q) by { assert(s.skip(b + d.len()) =~= r); assert(s.skip(b + e.len()) =~= q); }
    }
    // ---- weekdays ----
    proof fn lemma_token(x: Weekday)
        ensures clean_item(day_token(x)), day_token(x).len() == 2, !is_digit(day_token(x)[0]), !no_day(day_token(x)),
            forall|v: Weekday| #[trigger] <Weekday as FromStr>::parse_ok(day_token(x), v) ==> v == x, !<Weekday as FromStr>::parse_err(day_token(x))
    {
        lemma_day_token(x);
        let s = day_token(x);
        assert(day_token(x).is_prefix_of(s));
        assert forall|v: Weekday| #[trigger] <Weekday as FromStr>::parse_ok(s, v) implies v == x by { lemma_day_distinct(v, x); }
        assert forall|d: Weekday, rest: Seq<char>| s == #[trigger] (day_token(d) + rest) implies rest.len() == 0 by { lemma_day_token(d); }
    }
    proof fn lemma_wday(x: WeekdayNum)
        ensures clean_item(x.disp()), x.disp().len() > 0, !<WeekdayNum as FromStr>::parse_err(x.disp()), forall|v: WeekdayNum| #[trigger] <WeekdayNum as FromStr>::parse_ok(x.disp(), v) ==> v == x
    {
        let s = x.disp();
        let t = day_token(x.weekday);
        lemma_token(x.weekday);
        match x.ord {
            Some(n) => {
                lemma_num_text(n as int);
                assert(s == num_text(n as int) + t);
                assert(int_prefix(s, t, n as int));
                assert forall|k: int| 0 <= k < s.len() implies is_digit(#[trigger] s[k]) || s[k] == '-' || 'A' <= s[k] <= 'Z' by { let a = num_text(n as int); if k < a.len() { assert(s[k] == a[k]); } else { assert(s[k] == t[k - a.len()]); } }
                assert forall|m: Seq<char>, v: int| #[trigger] int_prefix(s, m, v) implies m == t && v == n by { lemma_prefix(s, m, v, t, n as int); }
            },
            None => {
                assert(s =~= t);
                assert forall|m: Seq<char>, v: int| #[trigger] int_prefix(s, m, v) implies false by {
                    let (g, d) = choose|g: Seq<char>, d: Seq<char>| #[trigger] (g + d) + m == s && all_digits(d) && d.len() > 0 && (m.len() > 0 ==> !is_digit(m[0])) && ((g == seq!['-'] && v == -dec(d)) || ((g == seq!['+'] || g.len() == 0) && v == dec(d)));
                    assert(is_digit(d[0]));
                    assert(s[0] == if g.len() == 0 { d[0] } else { g[0] });
                    lemma_day_token(x.weekday);
                }
            },
        }
        assert forall|d: Weekday, rest: Seq<char>| t == #[trigger] (day_token(d) + rest) implies rest.len() == 0 && d == x.weekday by { lemma_day_token(d); if rest.len() == 0 { assert(day_token(d) + rest =~= day_token(d)); lemma_day_distinct(d, x.weekday); } }
        assert forall|d: WeekdayNum, rest: Seq<char>| #[trigger] wday_at(s, rest, d) implies rest.len() == 0 && d == x by {
            match d.ord { Some(n) => { let m = choose|m: Seq<char>| #[trigger] int_prefix(s, m, n as int) && m == day_token(d.weekday) + rest; assert(m == t); }, None => { if let Some(n) = x.ord { assert(int_prefix(s, t, n as int)); } } }
        }
    }
    // ---- lists ----
    proof fn lemma_joined_safe(ts: Seq<Seq<char>>)
        requires forall|k: int| 0 <= k < ts.len() ==> clean_item(#[trigger] ts[k]) && ts[k].len() > 0
        ensures all_no_comma(ts), safe(cjoin(ts)), ts.len() > 0 ==> cjoin(ts).len() > 0
        decreases ts.len()
    {
        assert forall|k: int| 0 <= k < ts.len() implies no_comma(#[trigger] ts[k]) by { assert(clean_item(ts[k])); let t = ts[k]; assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != ',' by { assert(is_digit(t[j]) || t[j] == '-' || 'A' <= t[j] <= 'Z'); } }
        if ts.len() == 1 { assert(clean_item(ts[0])); lemma_safe(ts[0]); }
        if ts.len() > 1 {
            let d = ts.drop_last();
            assert forall|k: int| 0 <= k < d.len() implies clean_item(#[trigger] d[k]) && d[k].len() > 0 by { assert(clean_item(ts[k])); }
            lemma_joined_safe(d);
            assert(clean_item(ts[ts.len() - 1]));
            lemma_safe(ts.last());
            let s = cjoin(ts);
            assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != ';' && s[k] != '\r' && s[k] != '\n' by {
                if k < cjoin(d).len() { assert(s[k] == cjoin(d)[k]); } else if k > cjoin(d).len() { assert(s[k] == ts.last()[k - cjoin(d).len() - 1]); }
            }
        }
    }
    pub open spec fn safe(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != ';' && s[k] != '\r' && s[k] != '\n' }
    proof fn lemma_safe(s: Seq<char>)
        requires clean_item(s)
        ensures safe(s)
    { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != ';' && s[k] != '\r' && s[k] != '\n' by { assert(is_digit(s[k]) || s[k] == '-' || 'A' <= s[k] <= 'Z'); } }
    proof fn lemma_nums(xs: Seq<i8>)
        ensures safe(list_text(xs)), list_text(xs).len() == 0 <==> xs.len() == 0,
            xs.len() > 0 ==> !bad_nums(list_text(xs)), forall|v: Seq<i8>| xs.len() > 0 && #[trigger] nums(list_text(xs), v) ==> v == xs
    {
        let s = list_text(xs);
        let ts = sers(xs);
        lemma_list_text(xs);
        assert forall|k: int| 0 <= k < ts.len() implies clean_item(#[trigger] ts[k]) && ts[k].len() > 0 by { lemma_num_text(xs[k] as int); }
        lemma_joined_safe(ts);
        if xs.len() > 0 {
            lemma_all_pieces(ts);
            if bad_nums(s) {
                let (ps, k) = choose|ps: Seq<&str>, k: int| #![trigger joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && <i8 as FromStr>::parse_err(ps[k]@);
                assert(joined(ps, comma()) == cjoin(ts));
                assert(ps[k]@ == ts[k]); lemma_num_text(xs[k] as int); assert(int_text(ps[k]@, xs[k] as int, true));
            }
            assert forall|v: Seq<i8>| #[trigger] nums(s, v) implies v == xs by {
                broadcast use crate::xstd::num::lemma_int_text;
                let ps = choose|ps: Seq<&str>| #![trigger joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> <i8 as FromStr>::parse_ok(ps[k]@, #[trigger] v[k]);
                assert(joined(ps, comma()) == cjoin(ts));
                assert forall|k: int| 0 <= k < xs.len() implies v[k] == #[trigger] xs[k] by { assert(ps[k]@ == ts[k]); lemma_num_text(xs[k] as int); assert(<i8 as FromStr>::parse_ok(ps[k]@, v[k])); assert(int_text(ps[k]@, v[k] as int, true)); }
                assert(v =~= xs);
            }
        }
    }
    proof fn lemma_wdays(xs: Seq<WeekdayNum>)
        ensures safe(list_text(xs)), list_text(xs).len() == 0 <==> xs.len() == 0,
            xs.len() > 0 ==> !bad_wdays(list_text(xs)), forall|v: Seq<WeekdayNum>| xs.len() > 0 && #[trigger] wdays(list_text(xs), v) ==> v == xs
    {
        let s = list_text(xs);
        let ts = sers(xs);
        lemma_list_text(xs);
        assert forall|k: int| 0 <= k < ts.len() implies clean_item(#[trigger] ts[k]) && ts[k].len() > 0 by { lemma_wday(xs[k]); }
        lemma_joined_safe(ts);
        if xs.len() > 0 {
            lemma_all_pieces(ts);
            if bad_wdays(s) {
                let (ps, k) = choose|ps: Seq<&str>, k: int| #![trigger joined(ps, comma()), ps[k]] pieces(s, ps) && 0 <= k < ps.len() && <WeekdayNum as FromStr>::parse_err(ps[k]@);
                assert(joined(ps, comma()) == cjoin(ts));
                assert(ps[k]@ == ts[k]); lemma_wday(xs[k]);
            }
            assert forall|v: Seq<WeekdayNum>| #[trigger] wdays(s, v) implies v == xs by {
                let ps = choose|ps: Seq<&str>| #![trigger joined(ps, comma())] pieces(s, ps) && v.len() == ps.len() && forall|k: int| 0 <= k < v.len() ==> <WeekdayNum as FromStr>::parse_ok(ps[k]@, #[trigger] v[k]);
                assert(joined(ps, comma()) == cjoin(ts));
                assert forall|k: int| 0 <= k < xs.len() implies v[k] == #[trigger] xs[k] by { assert(ps[k]@ == ts[k]); lemma_wday(xs[k]); assert(<WeekdayNum as FromStr>::parse_ok(ps[k]@, v[k])); }
                assert(v =~= xs);
            }
        }
    }
    // ---- rules ----
    pub open spec fn rule_fit(r: Recur) -> bool { r.until matches Some(d) ==> d.fit() }
    pub open spec fn rule_same(a: Recur, o: Recur) -> bool {
        &&& o.freq == a.freq && o.until == a.until && o.count == a.count && o.interval == a.interval && o.wkst == a.wkst
        &&& o.by_second@ == a.by_second@ && o.by_minute@ == a.by_minute@ && o.by_hour@ == a.by_hour@ && o.by_day@ == a.by_day@ && o.by_monthday@ == a.by_monthday@
        &&& o.by_yearday@ == a.by_yearday@ && o.by_weekno@ == a.by_weekno@ && o.by_month@ == a.by_month@ && o.by_setpos@ == a.by_setpos@
    }
    proof fn lemma_freq(f: Freq)
        ensures f.ser().len() > 0, safe(f.ser()), forall|v: Freq| #[trigger] <Freq as FromStr>::parse_ok(f.ser(), v) ==> v == f, !<Freq as FromStr>::parse_err(f.ser())
    {
        reveal_strlit("SECONDLY"); reveal_strlit("MINUTELY"); reveal_strlit("HOURLY"); reveal_strlit("DAILY");
        reveal_strlit("WEEKLY"); reveal_strlit("MONTHLY"); reveal_strlit("YEARLY");
        assert forall|v: Freq| #[trigger] <Freq as FromStr>::parse_ok(f.ser(), v) implies v == f by { lemma_freq_distinct(v, f); }
    }
    pub open spec fn texts_ok(r: Recur) -> bool { forall|k: int| 0 <= k < 14 ==> safe(#[trigger] texts(r)[k]) }
    proof fn lemma_texts_safe(r: Recur)
        requires rule_fit(r)
        ensures texts_ok(r)
    {
        hide(list_text); hide(num_text);
        lemma_freq(r.freq);
        if let Some(d) = r.until { lemma_dodt(d); assert forall|k: int| 0 <= k < d.shown().len() implies #[trigger] d.shown()[k] != ';' && d.shown()[k] != '\r' && d.shown()[k] != '\n' by { assert(is_digit(d.shown()[k]) || d.shown()[k] == 'T' || d.shown()[k] == 'Z'); } }
        if let Some(n) = r.count { lemma_num_text(n as int); lemma_safe(num_text(n as int)); }
        lemma_num_text(r.interval as int); lemma_safe(num_text(r.interval as int));
        lemma_nums(r.by_second@); lemma_nums(r.by_minute@); lemma_nums(r.by_hour@); lemma_wdays(r.by_day@); lemma_nums(r.by_monthday@); lemma_nums(r.by_yearday@);
        lemma_nums(r.by_weekno@); lemma_nums(r.by_month@); lemma_nums(r.by_setpos@);
        if let Some(d) = r.wkst { lemma_token(d); lemma_safe(day_token(d)); }
        let ts = texts(r);
        assert(safe(ts[0])); assert(safe(ts[1])); assert(safe(ts[2])); assert(safe(ts[3])); assert(safe(ts[4])); assert(safe(ts[5])); assert(safe(ts[6]));
        assert(safe(ts[7])); assert(safe(ts[8])); assert(safe(ts[9])); assert(safe(ts[10])); assert(safe(ts[11])); assert(safe(ts[12])); assert(safe(ts[13]));
    }
    proof fn lemma_written_safe(ns: Seq<Seq<char>>, ts: Seq<Seq<char>>, n: nat)
        requires n <= ns.len(), ns.len() == ts.len(), forall|k: int| 0 <= k < ns.len() ==> all(Cls::Name, #[trigger] ns[k]), forall|k: int| 0 <= k < ns.len() ==> safe(#[trigger] ts[k])
        ensures crate::ser::no_breaks(written(ns, ts, n)), n > 0 && ts[0].len() > 0 ==> written(ns, ts, n).len() > 1
        decreases n
    {
        if n > 0 {
            let m = (n - 1) as nat;
            lemma_written_safe(ns, ts, m);
            let (a, p) = (written(ns, ts, m), part(ns[n - 1], ts[n - 1]));
            let (x, t) = (ns[n - 1], ts[n - 1]);
            assert(all(Cls::Name, ns[n - 1])); assert(safe(ts[n - 1]));
            let s = a + p;
            assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\r' && s[k] != '\n' by {
                if k < a.len() { assert(s[k] == a[k]); } else { let j = k - a.len(); assert(s[k] == p[j]); if j < x.len() { assert(p[j] == x[j]); assert(cls(Cls::Name, x[j])); } else if j > x.len() && j <= x.len() + t.len() { assert(p[j] == t[j - x.len() - 1]); } }
            }
        }
    }
    pub proof fn lemma_rule_text(r: Recur)
        requires rule_fit(r)
        ensures r.ser().len() > 0, crate::ser::no_breaks(r.ser()),
            items(r.ser()) is Some,
            forall|i: int| 0 <= i < 14 ==> items(r.ser()).unwrap().contains_key(#[trigger] names()[i]) == (texts(r)[i].len() > 0) && (texts(r)[i].len() > 0 ==> items(r.ser()).unwrap()[names()[i]] == texts(r)[i])
    {
        hide(list_text); hide(num_text); hide(part); hide(parts);
        let (ns, ts) = (names(), texts(r));
        lemma_names();
        lemma_texts_safe(r);
        lemma_freq(r.freq);
        assert forall|k: int| 0 <= k < ns.len() implies all(Cls::Name, #[trigger] ns[k]) && all(Cls::Item, ts[k]) by { assert(safe(ts[k])); }
        lemma_listed(ns, ts, 14);
        lemma_listed_map(ns, ts, 14);
        lemma_parts(r);
        lemma_written_safe(ns, ts, 14);
        let w = written(ns, ts, 14);
        assert(ts[0].len() > 0);
        let ps = listed(ns, ts, 14);
        if ps.len() == 0 { assert(its(ps).len() == 0); }
        lemma_items_read(ps);
        assert(r.ser() == w.drop_last());
        assert forall|k: int| 0 <= k < r.ser().len() implies #[trigger] r.ser()[k] != '\r' && r.ser()[k] != '\n' by { assert(r.ser()[k] == w[k]); }
    }
    /// the text of a rule is read as that rule and nothing else
    pub proof fn lemma_rule(r: Recur)
        requires rule_fit(r)
        ensures r.ser().len() > 0, crate::ser::no_breaks(r.ser()), !rule_err(r.ser()), forall|v: Recur| #[trigger] rule_ok(r.ser(), v) ==> rule_same(r, v)
    {
        hide(list_text); hide(num_text); hide(parts); hide(items); hide(nums); hide(wdays); hide(bad_nums); hide(bad_wdays); hide(day_token); hide(freq_token);
        reveal(rule_ok); reveal(rule_err);
        let (ns, ts) = (names(), texts(r));
        lemma_rule_text(r);
        let m = items(r.ser()).unwrap();
        lemma_freq(r.freq);
        if let Some(d) = r.until { lemma_dodt(d); }
        if let Some(n) = r.count { lemma_num_back(n as int, 0); }
        lemma_num_back(r.interval as int, 0);
        lemma_nums(r.by_second@); lemma_nums(r.by_minute@); lemma_nums(r.by_hour@); lemma_wdays(r.by_day@); lemma_nums(r.by_monthday@); lemma_nums(r.by_yearday@);
        lemma_nums(r.by_weekno@); lemma_nums(r.by_month@); lemma_nums(r.by_setpos@);
        if let Some(d) = r.wkst { lemma_token(d); }
        assert(ns[0] == "FREQ"@); assert(ns[1] == "UNTIL"@); assert(ns[2] == "COUNT"@); assert(ns[3] == "INTERVAL"@); assert(ns[4] == "BYSECOND"@); assert(ns[5] == "BYMINUTE"@); assert(ns[6] == "BYHOUR"@);
        assert(ns[7] == "BYDAY"@); assert(ns[8] == "BYMONTHDAY"@); assert(ns[9] == "BYYEARDAY"@); assert(ns[10] == "BYWEEKNO"@); assert(ns[11] == "BYMONTH"@); assert(ns[12] == "BYSETPOS"@); assert(ns[13] == "WKST"@);
        assert(ts[0] == r.freq.ser()); assert(ts[1] == r.until.ser()); assert(ts[2] == r.count.ser()); assert(ts[3] == r.interval.ser());
        assert(ts[4] == list_text(r.by_second@)); assert(ts[5] == list_text(r.by_minute@)); assert(ts[6] == list_text(r.by_hour@)); assert(ts[7] == list_text(r.by_day@)); assert(ts[8] == list_text(r.by_monthday@));
        assert(ts[9] == list_text(r.by_yearday@)); assert(ts[10] == list_text(r.by_weekno@)); assert(ts[11] == list_text(r.by_month@)); assert(ts[12] == list_text(r.by_setpos@)); assert(ts[13] == r.wkst.ser());
        assert(!bad_fields(m)) by {
            if let Some(n) = r.count { assert(int_text(num_text(n as int), n as int, false)); }
            assert(int_text(num_text(r.interval as int), r.interval as int, false));
        }
        assert forall|v: Recur| #[trigger] rule_ok(r.ser(), v) implies rule_same(r, v) by {
            broadcast use crate::xstd::num::lemma_int_text;
            assert(fields(m, v));
            assert(v.by_second@ =~= r.by_second@); assert(v.by_minute@ =~= r.by_minute@); assert(v.by_hour@ =~= r.by_hour@); assert(v.by_day@ =~= r.by_day@); assert(v.by_monthday@ =~= r.by_monthday@);
            assert(v.by_yearday@ =~= r.by_yearday@); assert(v.by_weekno@ =~= r.by_weekno@); assert(v.by_month@ =~= r.by_month@); assert(v.by_setpos@ =~= r.by_setpos@);
            if let Some(n) = r.count { assert(int_text(num_text(n as int), n as int, false)); }
            assert(int_text(num_text(r.interval as int), r.interval as int, false));
        }
    }
    //@ props
}
