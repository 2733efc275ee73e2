// Folding and unfolding.
pub mod unfold {
    use vstd::prelude::*;
    use crate::xstd::replaced;
    pub open spec fn fold_with(w: char) -> Seq<char> { seq!['\r', '\n', w] }
    /// what the parsers see of a text
    pub open spec fn unfolded(s: Seq<char>) -> Seq<char> { replaced(replaced(s, fold_with(' '), Seq::empty()), fold_with('\t'), Seq::empty()) }
    pub open spec fn fold_at(f: Seq<char>, sp: bool, tab: bool) -> bool { f.len() >= 3 && f[0] == '\r' && f[1] == '\n' && ((sp && f[2] == ' ') || (tab && f[2] == '\t')) }
    /// s has no fold
    pub open spec fn one_line_each(s: Seq<char>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i && i + 2 < s.len() && s[i] == '\r' && s[i + 1] == '\n' ==> s[i + 2] != ' ' && s[i + 2] != '\t' }
    /// f is s with folds put in, anywhere
    pub open spec fn folds(f: Seq<char>, s: Seq<char>, sp: bool, tab: bool) -> bool decreases f.len() {
        if f.len() == 0 { s.len() == 0 }
        else { (fold_at(f, sp, tab) && folds(f.skip(3), s, sp, tab)) || (s.len() > 0 && f[0] == s[0] && folds(f.skip(1), s.skip(1), sp, tab)) }
    }
    proof fn lemma_tail(s: Seq<char>)
        requires one_line_each(s), s.len() > 0
        ensures one_line_each(s.skip(1))
    {
        let t = s.skip(1);
        assert forall|i: int| #![trigger t[i]] 0 <= i && i + 2 < t.len() && t[i] == '\r' && t[i + 1] == '\n' implies t[i + 2] != ' ' && t[i + 2] != '\t' by { assert(t[i] == s[i + 1]); assert(t[i + 1] == s[i + 2]); }
    }
    /// a fold in f was put there
    proof fn lemma_put(f: Seq<char>, s: Seq<char>, sp: bool, tab: bool)
        requires folds(f, s, sp, tab), one_line_each(s), fold_at(f, true, true)
        ensures folds(f.skip(3), s, sp, tab), fold_at(f, sp, tab)
    {
        if s.len() > 0 && f[0] == s[0] && folds(f.skip(1), s.skip(1), sp, tab) {
            let (f1, s1) = (f.skip(1), s.skip(1));
            assert(f1[0] == f[1]);
            assert(s1.len() > 0 && s1[0] == f1[0] && folds(f1.skip(1), s1.skip(1), sp, tab));
            let (f2, s2) = (f1.skip(1), s1.skip(1));
            assert(f2[0] == f[2]);
            assert(s2.len() > 0 && s2[0] == f2[0]);
            assert(s1[0] == s[1] && s2[0] == s[2]);
            assert(s[0] == '\r' && s[1] == '\n');
            assert(false);
        }
    }
    proof fn lemma_kept(f: Seq<char>, p: Seq<char>)
        requires f.len() > 0, !p.is_prefix_of(f), p.len() > 0
        ensures replaced(f, p, Seq::empty()) == seq![f[0]] + replaced(f.skip(1), p, Seq::empty())
    {}
    /// taking out the folds of one kind leaves the others
    proof fn lemma_take_out(f: Seq<char>, s: Seq<char>, sp: bool, tab: bool, w: char)
        requires folds(f, s, sp, tab), one_line_each(s), w == ' ' || w == '\t'
        ensures folds(replaced(f, fold_with(w), Seq::empty()), s, sp && w != ' ', tab && w != '\t')
        decreases f.len()
    {
        let p = fold_with(w);
        let e = Seq::<char>::empty();
        let (a, b) = (sp && w != ' ', tab && w != '\t');
        if f.len() == 0 {
            assert(replaced(f, p, e).len() == 0);
        } else if fold_at(f, true, true) {
            lemma_put(f, s, sp, tab);
            lemma_take_out(f.skip(3), s, sp, tab, w);
            let g = replaced(f.skip(3), p, e);
            if p.is_prefix_of(f) {
                assert(f[2] == f.take(3)[2]);
                assert(e + g =~= g);
                assert(replaced(f, p, e) == g);
            } else {
                if f[2] == w { assert(f.take(3) =~= p); }
                let (f1, f2) = (f.skip(1), f.skip(1).skip(1));
                assert(f1[0] == '\n' && f2[0] == f[2]);
                assert(!p.is_prefix_of(f1)) by { if p.is_prefix_of(f1) { assert(f1.take(3)[0] == f1[0]); } }
                assert(!p.is_prefix_of(f2)) by { if p.is_prefix_of(f2) { assert(f2.take(3)[0] == f2[0]); } }
                assert(f2.skip(1) =~= f.skip(3));
                let h = replaced(f, p, e);
                lemma_kept(f, p); lemma_kept(f1, p); lemma_kept(f2, p);
                assert(h =~= seq![f[0], f[1], f[2]] + g);
                assert(h.skip(3) =~= g);
                assert(fold_at(h, a, b));
            }
        } else {
            assert(s.len() > 0 && f[0] == s[0] && folds(f.skip(1), s.skip(1), sp, tab)) by { if fold_at(f, sp, tab) { assert(false); } }
            lemma_tail(s);
            lemma_take_out(f.skip(1), s.skip(1), sp, tab, w);
            assert(!p.is_prefix_of(f)) by { if p.is_prefix_of(f) { assert(f.take(3)[0] == f[0] && f.take(3)[1] == f[1] && f.take(3)[2] == f[2]); } }
            let g = replaced(f.skip(1), p, e);
            let h = replaced(f, p, e);
            lemma_kept(f, p);
            assert(h == seq![f[0]] + g);
            assert(h.skip(1) =~= g);
        }
    }
    proof fn lemma_none_left(f: Seq<char>, s: Seq<char>)
        requires folds(f, s, false, false)
        ensures f == s
        decreases f.len()
    {
        if f.len() > 0 {
            lemma_none_left(f.skip(1), s.skip(1));
            assert(f =~= seq![f[0]] + f.skip(1));
            assert(s =~= seq![s[0]] + s.skip(1));
        } else { assert(f =~= s); }
    }
    /// wherever a text was folded, it is seen as it was
    pub proof fn lemma_unfolded(f: Seq<char>, s: Seq<char>)
        requires folds(f, s, true, true), one_line_each(s)
        ensures unfolded(f) == s
    {
        lemma_take_out(f, s, true, true, ' ');
        let g = replaced(f, fold_with(' '), Seq::empty());
        lemma_take_out(g, s, false, true, '\t');
        lemma_none_left(replaced(g, fold_with('\t'), Seq::empty()), s);
    }
    proof fn lemma_folds_self(s: Seq<char>)
        ensures folds(s, s, true, true)
        decreases s.len()
    { if s.len() > 0 { lemma_folds_self(s.skip(1)); } }
    /// a folded text is read as the text it was made from
    pub proof fn lemma_same_unfolded(f: Seq<char>, s: Seq<char>)
        requires folds(f, s, true, true), one_line_each(s)
        ensures unfolded(f) == unfolded(s)
    { lemma_unfolded(f, s); lemma_folds_self(s); lemma_unfolded(s, s); }
}
