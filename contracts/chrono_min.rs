pub mod chrono {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct FixedOffset { x: i32 }
    impl FixedOffset {
        pub uninterp spec fn secs(&self) -> int;
        pub broadcast axiom fn ax_range(&self) ensures -86400 < #[trigger] self.secs() < 86400;
        #[verifier::external_body]
        pub fn local_minus_utc(&self) -> (r: i32) ensures r == self.secs() { unimplemented!() }
    }
}
