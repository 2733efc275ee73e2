    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    //@ item crate::properties::recur::Freq
    pub open spec fn freq_token(x: Freq) -> Seq<char> {
        match x {
            Freq::Secondly => "SECONDLY"@,
            Freq::Minutely => "MINUTELY"@,
            Freq::Hourly => "HOURLY"@,
            Freq::Daily => "DAILY"@,
            Freq::Weekly => "WEEKLY"@,
            Freq::Monthly => "MONTHLY"@,
            Freq::Yearly => "YEARLY"@,
        }
    }
    pub proof fn lemma_freq_distinct(x: Freq, y: Freq) requires freq_token(x) == freq_token(y) ensures x == y {
        reveal_strlit("SECONDLY"); reveal_strlit("MINUTELY"); reveal_strlit("HOURLY"); reveal_strlit("DAILY");
        reveal_strlit("WEEKLY"); reveal_strlit("MONTHLY"); reveal_strlit("YEARLY");
        assert(freq_token(x).len() == freq_token(y).len());
        assert(freq_token(x)[0] == freq_token(y)[0]);
        assert(freq_token(x)[1] == freq_token(y)[1]);
    }
    //@ impl crate::properties::recur | FromStr for Freq
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { s == freq_token(v) }
    open spec fn parse_err(s: Seq<char>) -> bool { forall|v: Freq| s != #[trigger] freq_token(v) }
    //@ method from_str
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::recur | Display for Freq
    open spec fn disp(&self) -> Seq<char> { freq_token(*self) }
    //@ method fmt
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
