// generated by tools/gennest.py: reading a component from a text
pub mod entry {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::xstd::str::FromStr;
    use crate::nest::*;
    use crate::unfold::unfolded;
    use crate::components::*;
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    broadcast use crate::xstd::ax_str_ext;
    /// the text, unfolded, begins with v
    pub open spec fn text_of<T: Piece>(s: Seq<char>, v: T) -> bool { exists|rest: Seq<char>| #[trigger] T::at(unfolded(s), rest, v) }
    /// wherever its lines were folded, a text gives the same values
    pub proof fn lemma_same_values<T: Piece>(f: Seq<char>, s: Seq<char>, v: T)
        requires crate::unfold::folds(f, s, true, true), crate::unfold::one_line_each(s)
        ensures text_of(f, v) == text_of(s, v), T::none(unfolded(f)) == T::none(unfolded(s)), unfolded(f) == s
    { crate::unfold::lemma_same_unfolded(f, s); crate::unfold::lemma_unfolded(f, s); }
    //@ rename replace vx_replace
    //@ props C02,C04,C11
    //@ impl crate::components::vcalendar | FromStr for VCalendar
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { VCalendar::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, VCalendar)| -> (q: VCalendar)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for VCalendar {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vcalendar | TryFrom<String> for VCalendar
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VCalendar::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for VCalendar {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vcalendar | TryFrom<&str> for VCalendar
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VCalendar::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::vevent | FromStr for VEvent
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { VEvent::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, VEvent)| -> (q: VEvent)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for VEvent {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vevent | TryFrom<String> for VEvent
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VEvent::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for VEvent {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vevent | TryFrom<&str> for VEvent
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VEvent::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::vfreebusy | FromStr for VFreebusy
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { VFreebusy::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, VFreebusy)| -> (q: VFreebusy)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for VFreebusy {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vfreebusy | TryFrom<String> for VFreebusy
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VFreebusy::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for VFreebusy {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vfreebusy | TryFrom<&str> for VFreebusy
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VFreebusy::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::vjournal | FromStr for VJournal
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { VJournal::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, VJournal)| -> (q: VJournal)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for VJournal {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vjournal | TryFrom<String> for VJournal
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VJournal::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for VJournal {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vjournal | TryFrom<&str> for VJournal
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VJournal::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::vtodo | FromStr for VTodo
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { VTodo::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, VTodo)| -> (q: VTodo)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for VTodo {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtodo | TryFrom<String> for VTodo
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VTodo::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for VTodo {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtodo | TryFrom<&str> for VTodo
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VTodo::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::valarm | FromStr for VAlarm
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { VAlarm::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, VAlarm)| -> (q: VAlarm)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for VAlarm {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<String> for VAlarm
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VAlarm::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for VAlarm {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<&str> for VAlarm
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VAlarm::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::valarm | FromStr for Audio
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { Audio::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, Audio)| -> (q: Audio)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for Audio {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<String> for Audio
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Audio::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for Audio {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<&str> for Audio
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Audio::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::valarm | FromStr for Display
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { Display::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, Display)| -> (q: Display)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for Display {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<String> for Display
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Display::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for Display {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<&str> for Display
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Display::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::valarm | FromStr for Email
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { Email::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, Email)| -> (q: Email)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for Email {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<String> for Email
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Email::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for Email {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::valarm | TryFrom<&str> for Email
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Email::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::vtimezone | FromStr for VTimezone
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { VTimezone::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, VTimezone)| -> (q: VTimezone)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for VTimezone {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtimezone | TryFrom<String> for VTimezone
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VTimezone::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for VTimezone {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtimezone | TryFrom<&str> for VTimezone
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => VTimezone::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::vtimezone | FromStr for Standard
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { Standard::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, Standard)| -> (q: Standard)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for Standard {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtimezone | TryFrom<String> for Standard
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Standard::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for Standard {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtimezone | TryFrom<&str> for Standard
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Standard::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ impl crate::components::vtimezone | FromStr for Daylight
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { text_of(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { Daylight::none(unfolded(s)) }
    //@ method from_str
    //@ ret r
    //@ closure 0 |p: (&str, Daylight)| -> (q: Daylight)
            ensures q == p.1
    //@ head
        proof { reveal_strlit("\r\n "); reveal_strlit("\r\n\t"); reveal_strlit(""); assert("\r\n "@ =~= crate::unfold::fold_with(' ')); assert("\r\n\t"@ =~= crate::unfold::fold_with('\t')); assert(""@ =~= Seq::empty()); let u = unfolded(s@); assert(u == unfolded(s@)); }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<String> for Daylight {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: String) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtimezone | TryFrom<String> for Daylight
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Daylight::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    impl TryFromSpecImpl<&str> for Daylight {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: &str) -> core::result::Result<Self, crate::Error> { arbitrary() }
    }
    //@ impl crate::components::vtimezone | TryFrom<&str> for Daylight
    //@ method try_from
    //@ ret r
        ensures match r { Ok(v) => text_of(value@, v), Err(_) => Daylight::none(unfolded(value@)) }
    //@ end
    //@ endimpl
    //@ norename replace
}
