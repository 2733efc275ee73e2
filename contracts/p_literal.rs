// Duration literals.
//@ rename chars vx_chars
//@ rename is_ascii_digit vx_is_ascii_digit
//@ fn crate::parse_duration::days
//@ ret r
    ensures
        n >= 0 && unit == 365 ==> (r is Some <==> crate::chrono::fits(n * 365 * 86400000000000int)) && (r is Some ==> r->0.ns() == n * 365 * 86400000000000int),
        n >= 0 && unit == 30 ==> (r is Some <==> crate::chrono::fits(n * 30 * 86400000000000int)) && (r is Some ==> r->0.ns() == n * 30 * 86400000000000int),
//@ end
//@ fn crate::parse_duration
//@ ret r
    ensures match r { Ok(v) => crate::lits::literal(value@) == Some(v.ns()), Err(_) => crate::lits::literal(value@) is None }
//@ head
    broadcast use {crate::spans::lemma_plain_digits, crate::chrono::ax_span_of, crate::chrono::ax_span};
//@ closure 0 |x: &char| -> (b: bool)
    ensures b == (*x == '-')
//@ closure 1 |x: &char| -> (b: bool)
    ensures b == (*x == 'P')
//@ closure 2 |x: &char| -> (b: bool)
    ensures b == (*x == 'T')
//@ closure 3 |x: &char| -> (b: bool)
    ensures b == crate::xstd::num::is_digit(*x)
//@ loop 0
    invariant
        crate::xstd::num::all_digits(interval@),
        duration.ns() >= 0,
        crate::lits::literal(value@) == crate::lits::signed(negative, crate::lits::parts_ns(it@, time, interval@, duration.ns())),
    ensures crate::lits::literal(value@) == crate::lits::signed(negative, if interval@.len() == 0 { Some(duration.ns()) } else { None })
    decreases it@.len()
//@ loophead 0
    broadcast use {crate::spans::lemma_plain_digits, crate::chrono::ax_span_of, crate::chrono::ax_span};
    proof {
        if it@.len() == 0 { crate::lits::lemma_end(it@, time, interval@, duration.ns()); } else {
            if it@[0] == 'T' { crate::lits::lemma_t(it@, time, interval@, duration.ns()); }
            else if crate::xstd::num::is_digit(it@[0]) { crate::lits::lemma_digit(it@, time, interval@, duration.ns()); }
            else { crate::lits::lemma_unit(it@, time, interval@, duration.ns()); }
        }
        if interval@.len() > 0 { crate::spans::lemma_reads_digits(interval@); crate::spans::lemma_dec_pos(interval@); }
    }
//@ closure 4 |x: crate::chrono::TimeDelta| -> (q: Option<crate::chrono::TimeDelta>)
    ensures q is Some <==> crate::chrono::fits(duration.ns() + x.ns()), q is Some ==> q->0.ns() == duration.ns() + x.ns()
//@ end
//@ norename chars
//@ norename is_ascii_digit
