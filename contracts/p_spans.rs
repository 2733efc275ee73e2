// Texts of durations.
pub mod spans {
    use vstd::prelude::*;
    use crate::grammar::*;
    use crate::xstd::num::{all_digits, dec, int_text};
    use crate::chrono::fits;
    /// a number that fits, then its unit
    #[verifier::opaque]
    pub open spec fn part(s: Seq<char>, unit: char) -> Option<(int, Seq<char>)> {
        let d = front(Cls::Digit, s);
        match after(back(Cls::Digit, s), seq![unit]) {
            Some(t) => if d.len() > 0 && dec(d) <= i64::MAX { Some((dec(d), t)) } else { None },
            None => None,
        }
    }
    pub open spec fn opt_part(s: Seq<char>, unit: char) -> (int, Seq<char>) { match part(s, unit) { Some(x) => x, None => (0, s) } }
    /// T, then hours, minutes and seconds, each if there
    pub open spec fn clock(s: Seq<char>) -> Option<(int, int, int, Seq<char>)> {
        match after(s, seq!['T']) {
            Some(t) => {
                let (h, u) = opt_part(t, 'H');
                let (i, v) = opt_part(u, 'M');
                let (n, w) = opt_part(v, 'S');
                Some((h, i, n, w))
            },
            None => None,
        }
    }
    pub open spec fn sum_ns(w: int, d: int, h: int, i: int, s: int) -> int { (w * 604800 + d * 86400 + h * 3600 + i * 60 + s) * 1000000000 }
    /// the nanoseconds written in front of s as a duration, and what follows
    pub open spec fn span(s: Seq<char>) -> Option<(int, Seq<char>)> {
        let (neg, t) = match after(s, seq!['-']) { Some(t) => (true, t), None => (false, s) };
        match after(t, seq!['P']) {
            Some(t) => {
                let (w, u) = opt_part(t, 'W');
                let (d, v) = opt_part(u, 'D');
                let (h, i, n, x) = match clock(v) { Some(c) => c, None => (0, 0, 0, v) };
                let total = sum_ns(w, d, h, i, n);
                Some((if neg { -total } else { total }, x))
            },
            None => None,
        }
    }
    /// v is the duration in front of i, up to rest
    #[verifier::opaque]
    pub open spec fn span_at(i: Seq<char>, rest: Seq<char>, ns: int) -> bool { span(i) == Some((ns, rest)) }
    /// no duration that fits is in front of i
    #[verifier::opaque]
    pub open spec fn no_span(i: Seq<char>) -> bool { span(i) matches Some((ns, rest)) ==> !fits(ns) }
    /// the whole text is a duration
    pub open spec fn span_text(s: Seq<char>, ns: int) -> bool { exists|rest: Seq<char>| #[trigger] span_at(s, rest, ns) && rest.len() == 0 }
    pub open spec fn no_span_text(s: Seq<char>) -> bool { no_span(s) || exists|rest: Seq<char>, ns: int| #[trigger] span_at(s, rest, ns) && rest.len() > 0 }
    pub broadcast proof fn lemma_plain_digits(s: Seq<char>, v: int, signed: bool)
        requires #[trigger] int_text(s, v, signed), all_digits(s)
        ensures v == dec(s), s.len() > 0
    {
        let (g, d) = choose|sign: Seq<char>, d: Seq<char>| #[trigger] (sign + d) == s && all_digits(d) && d.len() > 0
            && ((signed && sign == seq!['-'] && v == -dec(d)) || ((sign == seq!['+'] || sign.len() == 0) && v == dec(d)));
        if g.len() > 0 { assert(s[0] == g[0]); }
        assert(d =~= s);
    }
    pub proof fn lemma_reads_digits(d: Seq<char>)
        requires all_digits(d), d.len() > 0
        ensures int_text(d, dec(d), true)
    { assert(Seq::<char>::empty() + d =~= d); }
    pub proof fn lemma_dec_pos(d: Seq<char>) requires all_digits(d) ensures dec(d) >= 0 decreases d.len()
    { if d.len() > 0 { assert forall|k: int| 0 <= k < d.drop_last().len() implies crate::xstd::num::is_digit(#[trigger] d.drop_last()[k]) by { assert(d[k] == d.drop_last()[k]); } lemma_dec_pos(d.drop_last()); assert(crate::xstd::num::is_digit(d[d.len() - 1])); } }
    pub broadcast proof fn lemma_part(s: Seq<char>, unit: char)
        ensures (#[trigger] part(s, unit)) matches Some((n, t)) ==> 0 <= n <= i64::MAX && t.len() < s.len()
    {
        reveal(part);
        lemma_run(Cls::Digit, s);
        let d = front(Cls::Digit, s);
        assert forall|k: int| 0 <= k < d.len() implies crate::xstd::num::is_digit(#[trigger] d[k]) by { assert(cls(Cls::Digit, s[k])); }
        lemma_dec_pos(d);
    }
    /// what the parsers of single parts do: digits, the unit, and a number that fits
    pub proof fn lemma_read_part(i: Seq<char>, unit: char)
        ensures part(i, unit) matches Some((n, t)) ==> int_text(front(Cls::Digit, i), n, true) && after(back(Cls::Digit, i), seq![unit]) is Some,
            forall|v: int| #[trigger] int_text(front(Cls::Digit, i), v, true) && v <= i64::MAX ==> (after(back(Cls::Digit, i), seq![unit]) matches Some(t) ==> part(i, unit) == Some((v, t))),
    {
        reveal(part);
        broadcast use lemma_plain_digits;
        lemma_run(Cls::Digit, i);
        let d = front(Cls::Digit, i);
        assert forall|k: int| 0 <= k < d.len() implies crate::xstd::num::is_digit(#[trigger] d[k]) by { assert(cls(Cls::Digit, i[k])); }
        lemma_dec_pos(d);
        if d.len() > 0 { lemma_reads_digits(d); }
    }
}
