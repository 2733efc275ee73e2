// The types of property values and components, as declared.
pub mod text {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::properties::text::Text
}
pub mod uri {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    //@ item crate::properties::uri::Uri
}
pub mod class {
    use vstd::prelude::*;
    //@ item crate::properties::class::Class
}
pub mod geo {
    use vstd::prelude::*;
    //@ item crate::properties::geo::Geo
}
pub mod status {
    use vstd::prelude::*;
    //@ item crate::properties::status::Status
}
pub mod request_status {
    use vstd::prelude::*;
    //@ item crate::properties::request_status::RequestStatus
}
pub mod period {
    use vstd::prelude::*;
    //@ item crate::properties::period::Period
    //@ item crate::properties::period::StartEnd
    //@ item crate::properties::period::StartDur
}
pub mod rdate {
    use vstd::prelude::*;
    //@ item crate::properties::rdate::RDate
}
pub mod trigger {
    use vstd::prelude::*;
    //@ item crate::properties::trigger::Trigger
}
pub mod time_transparency {
    use vstd::prelude::*;
    //@ item crate::properties::time_transparency::TimeTransparency
}
pub use text::*;
pub use uri::*;
pub use class::*;
pub use geo::*;
pub use status::*;
pub use request_status::*;
pub use period::Period;
pub use rdate::*;
pub use trigger::Trigger;
pub use time_transparency::*;
