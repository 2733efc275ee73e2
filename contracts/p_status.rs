pub mod status {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    broadcast use crate::xstd::ax_str_ext;
    //@ item crate::properties::status::Status
    pub open spec fn status_token(x: Status) -> Seq<char> {
        match x {
            Status::Tentative => "TENTATIVE"@,
            Status::Confirmed => "CONFIRMED"@,
            Status::Cancelled => "CANCELLED"@,
            Status::NeedsAction => "NEEDS-ACTION"@,
            Status::Completed => "COMPLETED"@,
            Status::InProcess => "IN-PROCESS"@,
            Status::Draft => "DRAFT"@,
            Status::Final => "FINAL"@,
        }
    }
    pub proof fn lemma_status_distinct(x: Status, y: Status) requires status_token(x) == status_token(y) ensures x == y {

        reveal_strlit("TENTATIVE"); reveal_strlit("CONFIRMED"); reveal_strlit("CANCELLED"); reveal_strlit("NEEDS-ACTION");
        reveal_strlit("COMPLETED"); reveal_strlit("IN-PROCESS"); reveal_strlit("DRAFT"); reveal_strlit("FINAL");
        assert(status_token(x).len() == status_token(y).len());
        assert(status_token(x)[0] == status_token(y)[0]);
        assert(status_token(x)[1] == status_token(y)[1]);
    }
    //@ impl crate::properties::status | FromStr for Status
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { s == status_token(v) }
    open spec fn parse_err(s: Seq<char>) -> bool { forall|v: Status| s != #[trigger] status_token(v) }
    //@ method from_str
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::status | Display for Status
    open spec fn disp(&self) -> Seq<char> { status_token(*self) }
    //@ method fmt
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
}
