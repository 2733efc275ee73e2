// generated by tools/gencomp.py: the components, as declared
pub mod components {
pub mod vcalendar {
    use vstd::prelude::*;
    //@ item crate::components::vcalendar::VCalendar
    //@ derived crate::components::vcalendar::VCalendar | Clone
    impl Clone for VCalendar { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod vevent {
    use vstd::prelude::*;
    //@ item crate::components::vevent::VEvent
    //@ derived crate::components::vevent::VEvent | Clone
    impl Clone for VEvent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod vfreebusy {
    use vstd::prelude::*;
    //@ item crate::components::vfreebusy::VFreebusy
    //@ derived crate::components::vfreebusy::VFreebusy | Clone
    impl Clone for VFreebusy { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod vjournal {
    use vstd::prelude::*;
    //@ item crate::components::vjournal::VJournal
    //@ derived crate::components::vjournal::VJournal | Clone
    impl Clone for VJournal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod vtodo {
    use vstd::prelude::*;
    //@ item crate::components::vtodo::VTodo
    //@ derived crate::components::vtodo::VTodo | Clone
    impl Clone for VTodo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod valarm {
    use vstd::prelude::*;
    //@ item crate::components::valarm::VAlarm
    //@ derived crate::components::valarm::VAlarm | Clone
    impl Clone for VAlarm { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    //@ item crate::components::valarm::Audio
    //@ derived crate::components::valarm::Audio | Clone
    impl Clone for Audio { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    //@ item crate::components::valarm::Display
    //@ derived crate::components::valarm::Display | Clone
    impl Clone for Display { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    //@ item crate::components::valarm::Email
    //@ derived crate::components::valarm::Email | Clone
    impl Clone for Email { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod vtimezone {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::components::vtimezone::Component
    //@ item crate::components::vtimezone::VTimezone
    //@ derived crate::components::vtimezone::VTimezone | Clone
    impl Clone for VTimezone { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    //@ item crate::components::vtimezone::Standard
    //@ derived crate::components::vtimezone::Standard | Clone
    impl Clone for Standard { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    //@ item crate::components::vtimezone::Daylight
    //@ derived crate::components::vtimezone::Daylight | Clone
    impl Clone for Daylight { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
//@ item crate::components::Component
pub use valarm::VAlarm; pub use vcalendar::*; pub use vevent::*; pub use vfreebusy::*; pub use vjournal::*; pub use vtimezone::VTimezone; pub use vtodo::*;
}
pub use components::*;
