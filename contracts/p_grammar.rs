// The grammar of content lines, as functions on texts.
pub mod grammar {
    use vstd::prelude::*;
    pub enum Cls { Name, Quoted, Attr, Value, Digit, Item }
    pub open spec fn cls(k: Cls, c: char) -> bool {
        match k {
            Cls::Name => 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '-' || c == '/',
            Cls::Quoted => c != '"',
            Cls::Attr => c != ';' && c != ':',
            Cls::Value => c != '\n' && c != '\r',
            Cls::Digit => '0' <= c <= '9',
            Cls::Item => c != ';',
        }
    }
    /// how many characters at the front of s are of the class
    pub open spec fn run(k: Cls, s: Seq<char>) -> int decreases s.len() {
        if s.len() > 0 && cls(k, s[0]) { 1 + run(k, s.skip(1)) } else { 0 }
    }
    pub open spec fn front(k: Cls, s: Seq<char>) -> Seq<char> { s.take(run(k, s)) }
    pub open spec fn back(k: Cls, s: Seq<char>) -> Seq<char> { s.skip(run(k, s)) }
    pub broadcast proof fn lemma_run(k: Cls, s: Seq<char>)
        ensures 0 <= #[trigger] run(k, s) <= s.len(),
            forall|j: int| 0 <= j < run(k, s) ==> cls(k, #[trigger] s[j]),
            run(k, s) < s.len() ==> !cls(k, s[run(k, s)]),
        decreases s.len()
    {
        if s.len() > 0 && cls(k, s[0]) {
            lemma_run(k, s.skip(1));
            assert forall|j: int| 0 <= j < run(k, s) implies cls(k, #[trigger] s[j]) by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
        }
    }
    /// the longest front is the only one followed by something else
    pub proof fn lemma_run_is(k: Cls, s: Seq<char>, n: int)
        requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> cls(k, #[trigger] s[j]), n < s.len() ==> !cls(k, s[n])
        ensures run(k, s) == n
    {
        lemma_run(k, s);
    }
    pub open spec fn after(s: Seq<char>, p: Seq<char>) -> Option<Seq<char>> { if p.is_prefix_of(s) { Some(s.skip(p.len() as int)) } else { None } }
    pub open spec fn after_char(s: Seq<char>, c: char) -> Option<Seq<char>> { if s.len() > 0 && s[0] == c { Some(s.skip(1)) } else { None } }
    /// a name and its text
    pub type Param = (Seq<char>, Seq<char>);
    pub open spec fn eqq() -> Seq<char> { seq!['=', '"'] }
    pub open spec fn fold() -> Seq<char> { seq!['\r', '\n', ' '] }
    /// NAME="text
    #[verifier::opaque]
    pub open spec fn g_quoted(s: Seq<char>) -> Option<(Param, Seq<char>)> {
        match after(back(Cls::Name, s), eqq()) {
            Some(t) => Some(((front(Cls::Name, s), front(Cls::Quoted, t)), back(Cls::Quoted, t))),
            None => None,
        }
    }
    /// NAME="text"
    #[verifier::opaque]
    pub open spec fn g_closed(s: Seq<char>) -> Option<(Param, Seq<char>)> {
        match g_quoted(s) {
            Some((p, t)) => match after_char(t, '"') { Some(u) => Some((p, u)), None => None },
            None => None,
        }
    }
    /// text up to ; or :, perhaps after a fold
    #[verifier::opaque]
    pub open spec fn g_attr(s: Seq<char>) -> (Seq<char>, Seq<char>) {
        let t = match after(s, fold()) { Some(t) => t, None => s };
        (front(Cls::Attr, t), back(Cls::Attr, t))
    }
    /// NAME=text
    #[verifier::opaque]
    pub open spec fn g_plain(s: Seq<char>) -> Option<(Param, Seq<char>)> {
        match after_char(back(Cls::Name, s), '=') {
            Some(t) => Some(((front(Cls::Name, s), g_attr(t).0), g_attr(t).1)),
            None => None,
        }
    }
    #[verifier::opaque]
    pub open spec fn g_param(s: Seq<char>) -> Option<(Param, Seq<char>)> {
        match after_char(s, ';') {
            Some(t) => match g_closed(t) { Some(x) => Some(x), None => g_plain(t) },
            None => None,
        }
    }
    pub broadcast proof fn lemma_g_param(s: Seq<char>)
        ensures (#[trigger] g_param(s)) matches Some((p, t)) ==> t.len() < s.len()
    { reveal(g_quoted); reveal(g_closed); reveal(g_attr); reveal(g_plain); reveal(g_param); broadcast use lemma_run; }
    /// as many as there are
    #[verifier::opaque]
    pub open spec fn g_params(s: Seq<char>) -> (Seq<Param>, Seq<char>) decreases s.len() {
        match g_param(s) {
            Some((p, t)) => if t.len() < s.len() { (seq![p] + g_params(t).0, g_params(t).1) } else { (Seq::empty(), s) },
            None => (Seq::empty(), s),
        }
    }
    /// what a list of parameters stands for: for each name its last text
    pub open spec fn entries(ps: Seq<Param>) -> Map<Seq<char>, Seq<char>> decreases ps.len() {
        if ps.len() == 0 { Map::empty() } else { entries(ps.drop_last()).insert(ps.last().0, ps.last().1) }
    }
    pub struct Line { pub key: Seq<char>, pub params: Map<Seq<char>, Seq<char>>, pub value: Seq<char> }
    #[verifier::opaque]
    pub open spec fn after_eol(s: Seq<char>) -> Option<Seq<char>> {
        if s.len() > 0 && s[0] == '\n' { Some(s.skip(1)) }
        else if s.len() > 1 && s[0] == '\r' && s[1] == '\n' { Some(s.skip(2)) }
        else { None }
    }
    pub open spec fn begin() -> Seq<char> { seq!['B', 'E', 'G', 'I', 'N', ':'] }
    pub open spec fn end() -> Seq<char> { seq!['E', 'N', 'D', ':'] }
    #[verifier::opaque]
    pub open spec fn g_line(s: Seq<char>) -> Option<(Line, Seq<char>)> {
        if begin().is_prefix_of(s) || end().is_prefix_of(s) { None } else {
            let (ps, t) = g_params(back(Cls::Name, s));
            match after_char(t, ':') {
                Some(u) => match after_eol(back(Cls::Value, u)) {
                    Some(v) => Some((Line { key: front(Cls::Name, s), params: entries(ps), value: front(Cls::Value, u) }, v)),
                    None => None,
                },
                None => None,
            }
        }
    }
    pub proof fn lemma_g_params_len(s: Seq<char>) ensures g_params(s).1.len() <= s.len() decreases s.len() {
        reveal(g_params);
        match g_param(s) { Some((p, t)) => if t.len() < s.len() { lemma_g_params_len(t); }, None => {} }
    }
    pub broadcast proof fn lemma_g_line(s: Seq<char>)
        ensures (#[trigger] g_line(s)) matches Some((l, t)) ==> t.len() < s.len()
    { reveal(g_line); reveal(after_eol); broadcast use lemma_run; lemma_g_params_len(back(Cls::Name, s)); }
    /// as many lines as there are
    #[verifier::opaque]
    pub open spec fn g_lines(s: Seq<char>) -> (Seq<Line>, Seq<char>) decreases s.len() {
        match g_line(s) {
            Some((l, t)) => if t.len() < s.len() { (seq![l] + g_lines(t).0, g_lines(t).1) } else { (Seq::empty(), s) },
            None => (Seq::empty(), s),
        }
    }
    pub broadcast proof fn lemma_g_lines_len(s: Seq<char>) ensures (#[trigger] g_lines(s)).1.len() <= s.len() decreases s.len() {
        reveal(g_lines);
        match g_line(s) { Some((l, t)) => if t.len() < s.len() { lemma_g_lines_len(t); }, None => {} }
    }
    pub broadcast group group_grammar { lemma_run, lemma_g_param, lemma_g_line }
}
