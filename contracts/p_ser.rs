pub mod ser {
    //@ rename replace vx_replace
    //@ rename contains vx_contains
    //@ rename len vx_len
    //@ rename is_char_boundary vx_is_char_boundary
    //@ rename split_at vx_split_at
    //@ rename join vx_join
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{blen, clen, has, replaced, joined};
    use crate::xstd::fmt::two_text;
    broadcast use crate::xstd::ax_str_ext;

    pub open spec fn opt_view(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

    //@ trait crate::ser::Serialize
        /// the component's name, for components
        spec fn comp() -> Option<Seq<char>>;
        /// parameters written between the name and the colon
        spec fn attr_spec(&self) -> Option<Seq<char>>;
        /// whether `ser` is written as it is (not as folded lines)
        spec fn exact() -> bool;
        /// the value's text
        spec fn ser(&self) -> Seq<char>;
        /// the lines of a component
        spec fn lines(&self) -> Seq<Seq<char>>;
    //@ method component
    //@ decl
    //@ ret r
        ensures opt_view(r) == Self::comp()
    //@ end
    //@ method attr
    //@ decl
    //@ ret r
        ensures opt_view(r) == self.attr_spec()
    //@ end
    //@ method ical
    //@ ret r
        ensures r is Ok,
            Self::exact() ==> r->Ok_0@ == self.ser(),
            Self::comp() is Some ==> writes(r->Ok_0@, self.lines()),
    //@ end
    //@ endtrait

    // ---- folding ----
    pub open spec fn flat(v: Seq<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ } }
    /// x is line, folded into pieces of at most n octets, with its line end
    pub open spec fn pieces_ok(p: Seq<&str>, line: Seq<char>, n: nat) -> bool {
        &&& flat(p) == line
        &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k])@.len() > 0 && blen(p[k]@) <= n
    }
    pub open spec fn fold_ok(x: Seq<char>, line: Seq<char>) -> bool {
        ||| blen(line) <= 75 && x == line + "\r\n"@
        ||| blen(line) > 75 && exists|p: Seq<&str>| #[trigger] pieces_ok(p, line, 75) && x == joined(p, "\r\n "@) + "\r\n"@
    }
    pub open spec fn cat(xs: Seq<Seq<char>>) -> Seq<char> decreases xs.len() { if xs.len() == 0 { Seq::empty() } else { cat(xs.drop_last()) + xs.last() } }
    pub open spec fn folds(xs: Seq<Seq<char>>, lines: Seq<Seq<char>>) -> bool {
        xs.len() == lines.len() && forall|k: int| 0 <= k < xs.len() ==> #[trigger] fold_ok(xs[k], lines[k])
    }
    /// r is these lines, each folded and ended
    pub open spec fn writes(r: Seq<char>, lines: Seq<Seq<char>>) -> bool {
        exists|xs: Seq<Seq<char>>| #[trigger] folds(xs, lines) && r == cat(xs)
    }
    pub proof fn lemma_cat_append(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
        ensures cat(a + b) == cat(a) + cat(b)
        decreases b.len()
    {
        if b.len() == 0 {
            assert(a + b =~= a); assert(cat(a) + cat(b) =~= cat(a));
        } else {
            lemma_cat_append(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((cat(a) + cat(b.drop_last())) + b.last() =~= cat(a) + cat(b));
        }
    }
    pub proof fn lemma_writes_append(a: Seq<char>, la: Seq<Seq<char>>, b: Seq<char>, lb: Seq<Seq<char>>)
        requires writes(a, la), writes(b, lb)
        ensures writes(a + b, la + lb)
    {
        let x = choose|xs: Seq<Seq<char>>| #[trigger] folds(xs, la) && a == cat(xs);
        let y = choose|xs: Seq<Seq<char>>| #[trigger] folds(xs, lb) && b == cat(xs);
        lemma_cat_append(x, y);
        assert forall|k: int| 0 <= k < (x + y).len() implies #[trigger] fold_ok((x + y)[k], (la + lb)[k]) by {
            if k < x.len() { assert(fold_ok(x[k], la[k])); } else { assert(fold_ok(y[k - x.len()], lb[k - x.len()])); }
        }
        assert(folds(x + y, la + lb));
    }
    pub proof fn lemma_writes_one(x: Seq<char>, line: Seq<char>)
        requires fold_ok(x, line)
        ensures writes(x, seq![line])
    {
        assert(folds(seq![x], seq![line]));
        assert(seq![x].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(cat(seq![x].drop_last()) =~= Seq::<char>::empty());
        assert(cat(seq![x]) =~= x);
    }
    pub proof fn lemma_writes_none()
        ensures writes(Seq::<char>::empty(), Seq::<Seq<char>>::empty())
    {
        assert(folds(Seq::<Seq<char>>::empty(), Seq::<Seq<char>>::empty()));
    }

    //@ fn crate::ser::ical
    //@ ret r
        ensures r is Ok,
            T::exact() ==> r->Ok_0@ == (match value.attr_spec() { Some(a) => a + ":"@, None => Seq::<char>::empty() }) + value.ser(), // [C10]
            T::comp() is Some && value.attr_spec() is None ==> writes(r->Ok_0@, value.lines()), // [C10,C11]
    //@ head
        proof { reveal_strlit(":"); assert(":"@ =~= seq![':']); }
    //@ end
    //@ impl crate::ser | Serialize for i8
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::ser | Serialize for u8
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::ser | Serialize for u32
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl

    // ---- UTC offsets ----
    pub open spec fn offset_text(o: int) -> Seq<char> {
        let a = if o < 0 { -o } else { o };
        let t = seq![if o < 0 { '-' } else { '+' }] + two_text(a / 3600) + two_text(a / 60 % 60);
        if a % 60 == 0 { t } else { t + two_text(a % 60) }
    }
    //@ props C16
    /// different offsets have different texts, and the text gives back the offset
    pub proof fn lemma_two_text(x: int, y: int)
        requires 0 <= x < 100, 0 <= y < 100, two_text(x) == two_text(y)
        ensures x == y
    {
        assert(two_text(x)[0] == two_text(y)[0]);
        assert(two_text(x)[1] == two_text(y)[1]);
    }
    pub proof fn lemma_offset_text(o: int)
        requires -86400 < o < 86400
        ensures ({
            let a = if o < 0 { -o } else { o };
            let s = offset_text(o);
            &&& s[0] == if o < 0 { '-' } else { '+' }
            &&& s.len() == if a % 60 == 0 { 5nat } else { 7 }
            &&& s.subrange(1, 3) == two_text(a / 3600)
            &&& s.subrange(3, 5) == two_text(a / 60 % 60)
            &&& a % 60 != 0 ==> s.subrange(5, 7) == two_text(a % 60)
            &&& 0 <= a / 3600 < 24
            &&& a == (a / 3600) * 3600 + (a / 60 % 60) * 60 + a % 60
        })
    {
        let a = if o < 0 { -o } else { o };
        let s = offset_text(o);
        assert(s.subrange(1, 3) =~= two_text(a / 3600));
        assert(s.subrange(3, 5) =~= two_text(a / 60 % 60));
        if a % 60 != 0 { assert(s.subrange(5, 7) =~= two_text(a % 60)); }
    }
    pub proof fn lemma_offset_injective(x: int, y: int)
        requires -86400 < x < 86400, -86400 < y < 86400, offset_text(x) == offset_text(y)
        ensures x == y
    {
        hide(offset_text);
        hide(two_text);
        let a = if x < 0 { -x } else { x };
        let b = if y < 0 { -y } else { y };
        lemma_offset_text(x); lemma_offset_text(y);
        lemma_two_text(a / 3600, b / 3600);
        lemma_two_text(a / 60 % 60, b / 60 % 60);
        assert((a % 60 == 0) == (b % 60 == 0));
        if a % 60 != 0 { lemma_two_text(a % 60, b % 60); }
        assert(a == b);
        assert(x < 0 <==> y < 0);
    }
    //@ impl crate::ser | Serialize for chrono::FixedOffset
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { offset_text(self.secs()) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ ret r
    //@ head
        proof { self.ax_range(); }
    //@ before let s =
        proof {
            let a = if self.secs() < 0 { -self.secs() } else { self.secs() };
            assert(sec == a % 60); assert(mins == a / 60); assert(min == a / 60 % 60); assert(hour == a / 3600);
            assert(hour < 100);
            let e = Seq::<char>::empty();
            assert(e + seq![sign] + two_text(hour as int) + two_text(min as int) =~= seq![sign] + two_text(hour as int) + two_text(min as int));
        }
    //@ end
    //@ endimpl
    //@ props
    // ---- escaping ----
    //@ props C09,C11
    /// the text of a value: `;` and `,` escaped, line breaks as \n, everything else copied
    pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
        if s.len() == 0 { Seq::empty() }
        else if s[0] == ';' { seq!['\\', ';'] + esc(s.skip(1)) }
        else if s[0] == ',' { seq!['\\', ','] + esc(s.skip(1)) }
        else if s[0] == '\r' && s.len() > 1 && s[1] == '\n' { seq!['\\', 'n'] + esc(s.skip(2)) }
        else if s[0] == '\r' || s[0] == '\n' { seq!['\\', 'n'] + esc(s.skip(1)) }
        else { seq![s[0]] + esc(s.skip(1)) }
    }
    pub open spec fn rc(s: Seq<char>, c: char, to: Seq<char>) -> Seq<char> { replaced(s, seq![c], to) }
    /// one character
    pub proof fn lemma_rc_step(s: Seq<char>, c: char, to: Seq<char>)
        ensures s.len() > 0 ==> rc(s, c, to) == (if s[0] == c { to } else { seq![s[0]] }) + rc(s.skip(1), c, to),
            s.len() == 0 ==> rc(s, c, to) == s,
    {
        if s.len() > 0 {
            assert(seq![c].is_prefix_of(s) == (s[0] == c)) by {
                if s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); }
                if seq![c].is_prefix_of(s) { assert(seq![c][0] == s.subrange(0, 1)[0]); }
            }
        }
    }
    /// a character in front
    pub proof fn lemma_rc_cons(h: char, t: Seq<char>, c: char, to: Seq<char>)
        ensures rc(seq![h] + t, c, to) == (if h == c { to } else { seq![h] }) + rc(t, c, to)
    {
        lemma_rc_step(seq![h] + t, c, to);
        assert((seq![h] + t).skip(1) =~= t);
    }
    /// two characters in front, neither the one replaced
    pub proof fn lemma_rc_cons2(g: char, h: char, t: Seq<char>, c: char, to: Seq<char>)
        requires g != c, h != c
        ensures rc(seq![g, h] + t, c, to) == seq![g, h] + rc(t, c, to)
    {
        assert(seq![g, h] + t =~= seq![g] + (seq![h] + t));
        lemma_rc_cons(g, seq![h] + t, c, to);
        lemma_rc_cons(h, t, c, to);
        assert(seq![g] + (seq![h] + rc(t, c, to)) =~= seq![g, h] + rc(t, c, to));
    }
    pub open spec fn crlf(s: Seq<char>) -> Seq<char> { replaced(s, seq!['\r', '\n'], seq!['\\', 'n']) }
    pub proof fn lemma_crlf_cons(h: char, t: Seq<char>)
        requires h != '\r' || t.len() == 0 || t[0] != '\n'
        ensures crlf(seq![h] + t) == seq![h] + crlf(t)
    {
        let s = seq![h] + t;
        assert(s.skip(1) =~= t);
        let p = seq!['\r', '\n'];
        if p.is_prefix_of(s) { assert(s[0] == p[0]); assert(s[1] == p[1]); assert(false); }
    }
    pub proof fn lemma_crlf_hit(t: Seq<char>)
        ensures crlf(seq!['\r', '\n'] + t) == seq!['\\', 'n'] + crlf(t)
    {
        let s = seq!['\r', '\n'] + t;
        assert(s.skip(2) =~= t);
        assert(s.take(2) =~= seq!['\r', '\n']);
        assert(seq!['\r', '\n'].is_prefix_of(s));
    }
    pub open spec fn e1(s: Seq<char>) -> Seq<char> { rc(s, ';', seq!['\\', ';']) }
    pub open spec fn e2(s: Seq<char>) -> Seq<char> { rc(s, ',', seq!['\\', ',']) }
    pub open spec fn e4(s: Seq<char>) -> Seq<char> { rc(s, '\n', seq!['\\', 'n']) }
    pub open spec fn e5(s: Seq<char>) -> Seq<char> { rc(s, '\r', seq!['\\', 'n']) }
    pub proof fn lemma_e12_head(s: Seq<char>)
        ensures s.len() == 0 ==> e2(e1(s)).len() == 0,
            s.len() > 0 ==> e2(e1(s)).len() > 0 && e2(e1(s))[0] == (if s[0] == ';' || s[0] == ',' { '\\' } else { s[0] })
    {
        lemma_rc_step(s, ';', seq!['\\', ';']);
        if s.len() == 0 { lemma_rc_step(e1(s), ',', seq!['\\', ',']); } else {
            let t = e1(s.skip(1));
            if s[0] == ';' {
                lemma_rc_cons2('\\', ';', t, ',', seq!['\\', ',']);
            } else {
                lemma_rc_cons(s[0], t, ',', seq!['\\', ',']);
            }
        }
    }
    /// the chain of replacements is esc
    pub proof fn lemma_esc_chain(s: Seq<char>)
        ensures e5(e4(crlf(e2(e1(s))))) == esc(s)
        decreases s.len()
    {
        lemma_rc_step(s, ';', seq!['\\', ';']);
        if s.len() == 0 {
            lemma_rc_step(e1(s), ',', seq!['\\', ',']);
            assert(crlf(e2(e1(s))) == e2(e1(s)));
            lemma_rc_step(e2(e1(s)), '\n', seq!['\\', 'n']);
            lemma_rc_step(e2(e1(s)), '\r', seq!['\\', 'n']);
            assert(s =~= Seq::<char>::empty());
        } else {
            let h = s[0];
            let t = s.skip(1);
            let t1 = e1(t);
            let t2 = e2(t1);
            lemma_esc_chain(t);
            lemma_e12_head(t);
            if h == ';' || h == ',' {
                if h == ';' { lemma_rc_cons2('\\', ';', t1, ',', seq!['\\', ',']); } else { lemma_rc_cons(',', t1, ',', seq!['\\', ',']); }
                assert(e2(e1(s)) =~= seq!['\\', h] + t2);
                lemma_pass(h, t2);
            } else {
                lemma_rc_cons(h, t1, ',', seq!['\\', ',']);
                assert(e2(e1(s)) =~= seq![h] + t2);
                if h == '\r' && t.len() > 0 && t[0] == '\n' {
                    let u = t.skip(1);
                    lemma_rc_step(t, ';', seq!['\\', ';']);
                    lemma_rc_cons('\n', e1(u), ',', seq!['\\', ',']);
                    assert(t2 =~= seq!['\n'] + e2(e1(u)));
                    assert(seq![h] + t2 =~= seq!['\r', '\n'] + e2(e1(u)));
                    lemma_crlf_hit(e2(e1(u)));
                    lemma_esc_chain(u);
                    lemma_rc_cons2('\\', 'n', crlf(e2(e1(u))), '\n', seq!['\\', 'n']);
                    lemma_rc_cons2('\\', 'n', e4(crlf(e2(e1(u)))), '\r', seq!['\\', 'n']);
                    assert(s.skip(2) =~= u);
                } else {
                    lemma_crlf_cons(h, t2);
                    let t3 = crlf(t2);
                    lemma_rc_cons(h, t3, '\n', seq!['\\', 'n']);
                    if h == '\n' {
                        lemma_rc_cons2('\\', 'n', e4(t3), '\r', seq!['\\', 'n']);
                    } else {
                        lemma_rc_cons(h, e4(t3), '\r', seq!['\\', 'n']);
                    }
                }
            }
        }
    }
    proof fn lemma_pass(h: char, t2: Seq<char>)
        requires h == ';' || h == ','
        ensures e5(e4(crlf(seq!['\\', h] + t2))) == seq!['\\', h] + e5(e4(crlf(t2)))
    {
        assert(seq!['\\', h] + t2 =~= seq!['\\'] + (seq![h] + t2));
        lemma_crlf_cons('\\', seq![h] + t2);
        lemma_crlf_cons(h, t2);
        assert(seq!['\\'] + (seq![h] + crlf(t2)) =~= seq!['\\', h] + crlf(t2));
        lemma_rc_cons2('\\', h, crlf(t2), '\n', seq!['\\', 'n']);
        lemma_rc_cons2('\\', h, e4(crlf(t2)), '\r', seq!['\\', 'n']);
    }
    pub open spec fn no_breaks(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '\r' && s[k] != '\n' }
    pub open spec fn guarded(s: Seq<char>) -> bool {
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] == ';' || s[k] == ',') ==> k > 0 && s[k - 1] == '\\'
    }
    /// no text adds, ends or splits a line; every ; and , is escaped
    pub proof fn lemma_esc_safe(s: Seq<char>)
        ensures no_breaks(esc(s)), guarded(esc(s))
        decreases s.len()
    {
        if s.len() > 0 {
            let n = if s[0] == '\r' && s.len() > 1 && s[1] == '\n' { 2int } else { 1int };
            lemma_esc_safe(s.skip(n));
            let t = esc(s.skip(n));
            let h = esc(s).take(esc(s).len() - t.len());
            assert(esc(s) =~= h + t);
            assert forall|k: int| 0 <= k < esc(s).len() implies #[trigger] esc(s)[k] != '\r' && esc(s)[k] != '\n' by {
                if k >= h.len() { assert(esc(s)[k] == t[k - h.len()]); }
            }
            assert forall|k: int| 0 <= k < esc(s).len() implies (((#[trigger] esc(s)[k]) != ';' && esc(s)[k] != ',') || (k > 0 && esc(s)[k - 1] == '\\')) by {
                if k >= h.len() { assert(esc(s)[k] == t[k - h.len()]); if k - h.len() > 0 { assert(esc(s)[k - 1] == t[k - h.len() - 1]); } }
            }
        }
    }
    /// texts free of ; , and line breaks are copied as they are
    pub proof fn lemma_esc_plain(s: Seq<char>)
        requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != ';' && s[k] != ',' && s[k] != '\r' && s[k] != '\n'
        ensures esc(s) == s
        decreases s.len()
    {
        if s.len() == 0 { assert(esc(s) =~= s); } else {
            assert forall|k: int| 0 <= k < s.skip(1).len() implies #[trigger] s.skip(1)[k] != ';' && s.skip(1)[k] != ',' && s.skip(1)[k] != '\r' && s.skip(1)[k] != '\n' by { assert(s.skip(1)[k] == s[k + 1]); }
            lemma_esc_plain(s.skip(1));
            assert(s =~= seq![s[0]] + s.skip(1));
            assert(s[0] != ';');
        }
    }
    //@ fn crate::ser::escape
    //@ ret r
        ensures r@ == esc(s@)
    //@ head
        proof {
            reveal_strlit("\r\n");
            assert("\\;"@ =~= seq!['\\', ';']); assert("\\,"@ =~= seq!['\\', ',']); assert("\\n"@ =~= seq!['\\', 'n']); assert("\r\n"@ =~= seq!['\r', '\n']);
            lemma_esc_chain(s@);
        }
    //@ end
    //@ impl crate::ser | Serialize for String
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { esc(self@) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl

    // ---- parameters ----
    /// a parameter value without line breaks
    pub open spec fn clean(s: Seq<char>) -> Seq<char> decreases s.len() {
        if s.len() == 0 { Seq::empty() }
        else if s[0] == '\r' { clean(s.skip(1)) }
        else if s[0] == '\n' { seq![' '] + clean(s.skip(1)) }
        else { seq![s[0]] + clean(s.skip(1)) }
    }
    pub open spec fn special(s: Seq<char>) -> bool { s.contains(':') || s.contains(';') || s.contains(',') }
    /// what is written for a parameter value
    pub open spec fn pv(s: Seq<char>) -> Seq<char> {
        if special(clean(s)) { seq!['"'] + rc(clean(s), '"', seq!['\'']) + seq!['"'] } else { clean(s) }
    }
    proof fn lemma_clean_chain(s: Seq<char>)
        ensures rc(rc(s, '\r', Seq::empty()), '\n', seq![' ']) == clean(s)
        decreases s.len()
    {
        lemma_rc_step(s, '\r', Seq::empty());
        if s.len() == 0 {
            lemma_rc_step(s, '\n', seq![' ']);
            assert(s =~= Seq::<char>::empty());
        } else {
            lemma_clean_chain(s.skip(1));
            let t = rc(s.skip(1), '\r', Seq::empty());
            if s[0] == '\r' { assert(Seq::<char>::empty() + t =~= t); } else { lemma_rc_cons(s[0], t, '\n', seq![' ']); }
        }
    }
    proof fn lemma_has_char(s: Seq<char>, c: char)
        ensures has(s, seq![c]) == s.contains(c)
    {
        if has(s, seq![c]) {
            let k = choose|k: int| 0 <= k <= s.len() && seq![c].is_prefix_of(#[trigger] s.skip(k));
            assert(s.skip(k)[0] == seq![c][0]);
            assert(s[k] == c);
        }
        if s.contains(c) {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == c;
            assert(s.skip(k).take(1) =~= seq![c]);
            assert(seq![c].is_prefix_of(s.skip(k)));
        }
    }
    /// nothing a parameter value contains can end or split the line
    pub proof fn lemma_pv_safe(s: Seq<char>)
        ensures no_breaks(pv(s)), no_breaks(clean(s))
    {
        lemma_clean_safe(s);
        lemma_rc_safe(clean(s));
    }
    proof fn lemma_clean_safe(s: Seq<char>)
        ensures no_breaks(clean(s))
        decreases s.len()
    {
        if s.len() > 0 { lemma_clean_safe(s.skip(1)); }
    }
    proof fn lemma_rc_safe(s: Seq<char>)
        requires no_breaks(s)
        ensures no_breaks(rc(s, '"', seq!['\'']))
        decreases s.len()
    {
        lemma_rc_step(s, '"', seq!['\'']);
        if s.len() > 0 {
            assert forall|k: int| 0 <= k < s.skip(1).len() implies #[trigger] s.skip(1)[k] != '\r' && s.skip(1)[k] != '\n' by { assert(s.skip(1)[k] == s[k + 1]); }
            lemma_rc_safe(s.skip(1));
        }
    }
    /// values without double quotes or line breaks are kept
    pub proof fn lemma_pv_keeps(s: Seq<char>)
        requires no_breaks(s), !s.contains('"')
        ensures pv(s) == if special(s) { seq!['"'] + s + seq!['"'] } else { s }
    {
        lemma_clean_id(s);
        lemma_rc_id(s, '"', seq!['\'']);
    }
    proof fn lemma_clean_id(s: Seq<char>)
        requires no_breaks(s)
        ensures clean(s) == s
        decreases s.len()
    {
        if s.len() > 0 {
            assert forall|k: int| 0 <= k < s.skip(1).len() implies #[trigger] s.skip(1)[k] != '\r' && s.skip(1)[k] != '\n' by { assert(s.skip(1)[k] == s[k + 1]); }
            lemma_clean_id(s.skip(1));
            assert(s =~= seq![s[0]] + s.skip(1));
            assert(s[0] != '\r' && s[0] != '\n');
        } else { assert(clean(s) =~= s); }
    }
    pub proof fn lemma_rc_id(s: Seq<char>, c: char, to: Seq<char>)
        requires !s.contains(c)
        ensures rc(s, c, to) == s
        decreases s.len()
    {
        lemma_rc_step(s, c, to);
        if s.len() > 0 {
            assert forall|k: int| 0 <= k < s.skip(1).len() implies s.skip(1)[k] != c by { assert(s.skip(1)[k] == s[k + 1]); assert(s.contains(s[k + 1])); }
            lemma_rc_id(s.skip(1), c, to);
            assert(s.contains(s[0]));
            assert(s =~= seq![s[0]] + s.skip(1));
        }
    }
    //@ fn crate::ser::param_value
    //@ ret r
        ensures r@ == pv(s@)
    //@ head
        proof {
            reveal_strlit("");
            assert(""@ =~= Seq::<char>::empty()); assert(" "@ =~= seq![' ']); assert("'"@ =~= seq!['\'']);
            lemma_clean_chain(s@);
            lemma_has_char(clean(s@), ':'); lemma_has_char(clean(s@), ';'); lemma_has_char(clean(s@), ',');
            assert("\""@ =~= seq!['"']);
            let q = rc(clean(s@), '"', seq!['\'']);
            assert(Seq::<char>::empty() + "\""@ + q + "\""@ =~= seq!['"'] + q + seq!['"']);
        }
    //@ end
    /// what is written for parameters: K=V;K=V
    pub open spec fn params_semi<K: ToString, V: AsRef<str>>(es: Seq<(K, V)>) -> Seq<char> decreases es.len() {
        if es.len() == 0 { Seq::empty() } else { params_semi(es.drop_last()) + es.last().0.ts() + seq!['='] + pv(es.last().1.refd()@) + seq![';'] }
    }
    pub open spec fn params_text<K: ToString, V: AsRef<str>>(es: Seq<(K, V)>) -> Seq<char> {
        if es.len() == 0 { Seq::empty() } else { params_semi(es.drop_last()) + es.last().0.ts() + seq!['='] + pv(es.last().1.refd()@) }
    }
    //@ impl crate::ser | Serialize for std::collections::BTreeMap<K,V>
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { params_text(self@) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ ret r
    //@ sub in it: self => in it: self.vx_iter()
    //@ loop 0 it
            invariant it.seq().len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> *(#[trigger] it.seq()[k]) == self@[k],
                s@ == params_semi(self@.take(it.index@ as int))
    //@ before s.push_str(&k
        proof { assert(self@.take(it.index@ + 1).drop_last() =~= self@.take(it.index@ as int)); broadcast use crate::xstd::string::ax_str_of; }
    //@ before s.pop
        proof {
            assert(self@.take(self@.len() as int) =~= self@);
            if self@.len() > 0 { assert(s@.drop_last() =~= params_text(self@)); }
        }
    //@ end
    //@ endimpl
    //@ props
    // ---- lists and options ----
    //@ props C10,C11
    pub open spec fn commas<T: Serialize>(v: Seq<T>) -> Seq<char> decreases v.len() {
        if v.len() == 0 { Seq::empty() } else { commas(v.drop_last()) + v.last().ser() + seq![','] }
    }
    /// items separated by commas
    pub open spec fn list_text<T: Serialize>(v: Seq<T>) -> Seq<char> {
        if v.len() == 0 { Seq::empty() } else { commas(v.drop_last()) + v.last().ser() }
    }
    //@ impl crate::ser | Serialize for Vec<T>
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { T::exact() }
    open spec fn ser(&self) -> Seq<char> { list_text(self@) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ ret r
    //@ loop 0 it
            invariant it.seq().len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> *(#[trigger] it.seq()[k]) == self@[k],
                T::exact() ==> s@ == commas(self@.take(it.index@ as int))
    //@ before s.push_str(&x
        proof { assert(self@.take(it.index@ + 1).drop_last() =~= self@.take(it.index@ as int)); }
    //@ before s.pop
        proof {
            assert(self@.take(self@.len() as int) =~= self@);
            if T::exact() && self@.len() > 0 { assert(s@.drop_last() =~= list_text(self@)); }
        }
    //@ end
    //@ endimpl
    //@ impl crate::ser | Serialize for Option<T>
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { match self { Some(v) => v.attr_spec(), None => None } }
    open spec fn exact() -> bool { T::exact() }
    open spec fn ser(&self) -> Seq<char> { match self { Some(v) => v.ser(), None => Seq::empty() } }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ ret r
    //@ head
        proof { }
    //@ end
    //@ endimpl

    // ---- folding ----
    //@ props C08,C10,C11
    pub proof fn lemma_blen_append(a: Seq<char>, b: Seq<char>)
        ensures blen(a + b) == blen(a) + blen(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); } else {
            lemma_blen_append(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
        }
    }
    pub proof fn lemma_blen_pos(a: Seq<char>)
        ensures a.len() <= blen(a) <= 4 * a.len()
        decreases a.len()
    {
        if a.len() > 0 { lemma_blen_pos(a.drop_last()); }
    }
    pub proof fn lemma_flat_push(v: Seq<&str>, x: &str)
        ensures flat(v.push(x)) == flat(v) + x@
    {
        assert(v.push(x).drop_last() =~= v);
    }
    /// the line a property is written as, before folding
    pub open spec fn line_of(name: Seq<char>, attr: Option<Seq<char>>, text: Seq<char>) -> Seq<char> {
        name + (match attr { Some(a) => seq![';'] + a, None => Seq::empty() }) + seq![':'] + text
    }
    /// a property without text is not written
    pub open spec fn prop_lines(name: Seq<char>, attr: Option<Seq<char>>, text: Seq<char>) -> Seq<Seq<char>> {
        if text.len() == 0 { Seq::empty() } else { seq![line_of(name, attr, text)] }
    }
    /// the lines of a field
    pub open spec fn field_lines<S: Serialize>(name: Seq<char>, v: S) -> Seq<Seq<char>> {
        if S::comp() is Some { v.lines() } else { prop_lines(name, v.attr_spec(), v.ser()) }
    }
    //@ fn crate::ser::field
    //@ ret r
        ensures r is Ok,
            S::exact() || S::comp() is Some ==> writes(r->Ok_0@, field_lines(name@, *value)),
    //@ head
        proof { reveal_strlit("\r\n"); lemma_writes_none(); }
        let ghost line = line_of(name@, value.attr_spec(), value.ser());
    //@ before if s.len() > 75
        proof { if S::exact() { assert(s@ =~= line); } }
        let ghost raw = s@;
    //@ before s.push_str("\r\n")
        let ghost body = s@;
    //@ before Ok(s)
        proof {
            if S::comp() is None && value.ser().len() > 0 && S::exact() { lemma_writes_one(s@, line); }
            if S::comp() is None && value.ser().len() == 0 && S::exact() { assert(s@ =~= Seq::<char>::empty()); }
            if S::comp() is Some { assert(s@ =~= ical@); }
        }
    //@ end
    //@ fn crate::ser::split
    //@ ret r
        requires sub_size >= 4
        ensures flat(r@) == s@, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@.len() > 0,
            forall|k: int| 0 <= k < r@.len() ==> blen((#[trigger] r@[k])@) <= sub_size, // [C08,C10]
            pieces_ok(r@, s@, sub_size as nat), // [C08,C10]
    //@ head
        proof { assert(flat(Seq::<&str>::empty()) + s@ =~= s@); }
    //@ loop 0
            invariant sub_size >= 4, flat(v@) + cur@ == s@,
                forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k])@.len() > 0,
                forall|k: int| 0 <= k < v@.len() ==> blen((#[trigger] v@[k])@) <= sub_size, // [C08,C10]
            decreases cur@.len()
    //@ loop 1
                invariant sub_size >= 4, cur@.len() > 0, 1 <= clen(cur@[0]) <= mid <= sub_size, blen(cur@.take(1)) == clen(cur@[0]), mid <= blen(cur@)
                decreases mid
    //@ before let mut mid
        proof {
            assert(cur@.take(1).drop_last() =~= Seq::<char>::empty());
            assert(cur@ =~= cur@.take(1) + cur@.skip(1));
            assert(cur@.take(1).last() == cur@[0]);
            assert(blen(cur@.take(1).drop_last()) == 0);
            assert(cur@.take(1).len() == 1);
            assert(blen(cur@.take(1)) == clen(cur@[0]));
            lemma_blen_append(cur@.take(1), cur@.skip(1));
        }
    //@ before mid -= 1
        proof { assert(blen(cur.txt().take(1)) == clen(cur@[0])); }
    //@ before v.push(chunk)
        proof {
            lemma_blen_pos(chunk@);
            lemma_blen_append(chunk@, rest@);
            lemma_flat_push(v@, chunk);
            assert(flat(v@) + (chunk@ + rest@) =~= (flat(v@) + chunk@) + rest@);
        }
    //@ end
    //@ props
