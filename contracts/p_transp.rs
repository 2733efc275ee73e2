pub mod time_transparency {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    broadcast use crate::xstd::ax_str_ext;
    //@ item crate::properties::time_transparency::TimeTransparency
    pub open spec fn transp_token(x: TimeTransparency) -> Seq<char> {
        match x {
            TimeTransparency::Opaque => "OPAQUE"@,
            TimeTransparency::Transparent => "TRANSPARENT"@,
        }
    }
    pub proof fn lemma_transp_distinct(x: TimeTransparency, y: TimeTransparency) requires transp_token(x) == transp_token(y) ensures x == y {
        reveal_strlit("OPAQUE"); reveal_strlit("TRANSPARENT");
        assert(transp_token(x).len() == transp_token(y).len());
    }
    //@ impl crate::properties::time_transparency | FromStr for TimeTransparency
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { s == transp_token(v) }
    open spec fn parse_err(s: Seq<char>) -> bool { forall|v: TimeTransparency| s != #[trigger] transp_token(v) }
    //@ method from_str
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::time_transparency | Display for TimeTransparency
    open spec fn disp(&self) -> Seq<char> { transp_token(*self) }
    //@ method fmt
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
}
