// The components, as declared.
pub mod valarm {
    use vstd::prelude::*;
    //@ item crate::components::valarm::VAlarm
    //@ item crate::components::valarm::Audio
    //@ item crate::components::valarm::Display
    //@ item crate::components::valarm::Email
}
pub mod vevent {
    use vstd::prelude::*;
    //@ item crate::components::vevent::VEvent
    //@ derived crate::components::vevent::VEvent | Clone
    impl Clone for VEvent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod vjournal {
    use vstd::prelude::*;
    //@ item crate::components::vjournal::VJournal
    //@ derived crate::components::vjournal::VJournal | Clone
    impl Clone for VJournal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod vtodo {
    use vstd::prelude::*;
    //@ item crate::components::vtodo::VTodo
    //@ derived crate::components::vtodo::VTodo | Clone
    impl Clone for VTodo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub use valarm::VAlarm;
pub use vevent::*;
pub use vjournal::*;
pub use vtodo::*;
