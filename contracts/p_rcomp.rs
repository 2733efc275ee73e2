// generated by tools/gencomp.py
// A component starts without any property but the required ones.
pub mod defaults {
    use vstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email};
    use crate::components::vtimezone::*;
    //@ derived crate::components::vcalendar::VCalendar | Default
    impl core::default::Default for VCalendar {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.calscale is None, r.method is None, r.x_prop@.len() == 0, r.iana_prop@.len() == 0, r.alarms@.len() == 0, r.events@.len() == 0, r.freebusy@.len() == 0, r.journals@.len() == 0, r.todo@.len() == 0, r.timezones@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::vevent::VEvent | Default
    impl core::default::Default for VEvent {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.class is None, r.created is None, r.description is None, r.geo is None, r.last_modified is None, r.location is None, r.organizer is None, r.priority is None, r.sequence is None, r.status is None, r.summary is None, r.transp is None, r.url is None, r.recurid is None, r.rrule is None, r.dtend is None, r.duration is None, r.attach@.len() == 0, r.attendee@.len() == 0, r.categories@.len() == 0, r.comment@.len() == 0, r.contact@.len() == 0, r.exdate@.len() == 0, r.rstatus@.len() == 0, r.related_to@.len() == 0, r.resources@.len() == 0, r.rdate@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0, r.alarms@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::vfreebusy::VFreebusy | Default
    impl core::default::Default for VFreebusy {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.contact is None, r.dtstart is None, r.dtend is None, r.organizer is None, r.url is None, r.attendee@.len() == 0, r.comment@.len() == 0, r.freebusy@.len() == 0, r.rstatus@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::vjournal::VJournal | Default
    impl core::default::Default for VJournal {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.class is None, r.created is None, r.last_modified is None, r.organizer is None, r.recurid is None, r.sequence is None, r.status is None, r.summary is None, r.url is None, r.rrule is None, r.attach@.len() == 0, r.attendee@.len() == 0, r.categories@.len() == 0, r.comment@.len() == 0, r.contact@.len() == 0, r.description@.len() == 0, r.exdate@.len() == 0, r.related_to@.len() == 0, r.rdate@.len() == 0, r.rstatus@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::vtodo::VTodo | Default
    impl core::default::Default for VTodo {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.class is None, r.completed is None, r.created is None, r.dtstart is None, r.geo is None, r.last_modified is None, r.location is None, r.organizer is None, r.percent_complete is None, r.priority is None, r.recurid is None, r.sequence is None, r.status is None, r.summary is None, r.url is None, r.rrule is None, r.due is None, r.duration is None, r.attach@.len() == 0, r.attendee@.len() == 0, r.categories@.len() == 0, r.comment@.len() == 0, r.contact@.len() == 0, r.exdate@.len() == 0, r.rstatus@.len() == 0, r.related_to@.len() == 0, r.resources@.len() == 0, r.rdate@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::valarm::Audio | Default
    impl core::default::Default for Audio {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.duration is None, r.repeat is None, r.attach@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::valarm::Display | Default
    impl core::default::Default for Display {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.duration is None, r.repeat is None, r.x_prop@.len() == 0, r.iana_prop@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::valarm::Email | Default
    impl core::default::Default for Email {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.attendee@.len() == 0, r.duration is None, r.repeat is None, r.attach@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0 { unimplemented!() }
    }
    //@ derived crate::components::vtimezone::VTimezone | Default
    impl core::default::Default for VTimezone {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r.last_modified is None, r.tzurl is None, r.x_prop@.len() == 0, r.iana_prop@.len() == 0, r.standard@.len() == 0, r.daylight@.len() == 0 { unimplemented!() }
    }
    //@ props C03,C11
    //@ impl crate::components::vtimezone | Standard | inherent
    //@ method new
    //@ ret r
        ensures r.rrule is None, r.comment@.len() == 0, r.rdate@.len() == 0, r.tzname@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0
    //@ end
    //@ endimpl
    //@ impl crate::components::vtimezone | Default for Standard
    //@ method default
    //@ ret r
        ensures r.rrule is None, r.comment@.len() == 0, r.rdate@.len() == 0, r.tzname@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0
    //@ end
    //@ endimpl
    //@ props
    //@ props C03,C11
    //@ impl crate::components::vtimezone | Daylight | inherent
    //@ method new
    //@ ret r
        ensures r.rrule is None, r.comment@.len() == 0, r.rdate@.len() == 0, r.tzname@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0
    //@ end
    //@ endimpl
    //@ impl crate::components::vtimezone | Default for Daylight
    //@ method default
    //@ ret r
        ensures r.rrule is None, r.comment@.len() == 0, r.rdate@.len() == 0, r.tzname@.len() == 0, r.x_prop@.len() == 0, r.iana_prop@.len() == 0
    //@ end
    //@ endimpl
    //@ props
}
pub mod r_vcalendar {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl VCalendar {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "PRODID"@ || k == "VERSION"@ || k == "CALSCALE"@ || k == "METHOD"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "PRODID"@ { 0 } else if k == "VERSION"@ { 1 } else if k == "CALSCALE"@ { 2 } else if k == "METHOD"@ { 3 } else { -1 } }
        proof fn lemma_tags() ensures VCalendar::tag("PRODID"@) == 0, VCalendar::tag("VERSION"@) == 1, VCalendar::tag("CALSCALE"@) == 2, VCalendar::tag("METHOD"@) == 3
        { reveal(VCalendar::tag); reveal_strlit("PRODID"); reveal_strlit("VERSION"); reveal_strlit("CALSCALE"); reveal_strlit("METHOD"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: VCalendar) -> bool {
            &&& last_rel::<P_prodid>(ls, c.prodid)
            &&& last_rel::<P_version>(ls, c.version)
            &&& opt_rel::<P_calscale>(ls, n, c.calscale)
            &&& opt_rel::<P_method>(ls, n, c.method)
            &&& c.alarms@.len() == 0
            &&& c.events@.len() == 0
            &&& c.freebusy@.len() == 0
            &&& c.journals@.len() == 0
            &&& c.todo@.len() == 0
            &&& c.timezones@.len() == 0
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !VCalendar::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !VCalendar::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_prodid>(ls)
            ||| last_bad::<P_version>(ls)
            ||| some_bad::<P_calscale>(ls)
            ||| some_bad::<P_method>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for VCalendar {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<VCalendar, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vcalendar | TryFrom<Vec<crate::ContentLine>> for VCalendar
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => VCalendar::read(properties@, properties@.len(), c), Err(_) => VCalendar::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "PRODID"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "VERSION"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { VCalendar::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_prodid>(ls, component.prodid), last_rel::<P_version>(ls, component.version), opt_rel::<P_calscale>(ls, it.index@ as nat, component.calscale), opt_rel::<P_method>(ls, it.index@ as nat, component.method), component.alarms@.len() == 0, component.events@.len() == 0, component.freebusy@.len() == 0, component.journals@.len() == 0, component.todo@.len() == 0, component.timezones@.len() == 0, component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VCalendar::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VCalendar::known(k) && !is_x(k)), VCalendar::tag("PRODID"@) == 0, VCalendar::tag("VERSION"@) == 1, VCalendar::tag("CALSCALE"@) == 2, VCalendar::tag("METHOD"@) == 3
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_vevent {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl VEvent {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "DTSTAMP"@ || k == "UID"@ || k == "DTSTART"@ || k == "CLASS"@ || k == "CREATED"@ || k == "DESCRIPTION"@ || k == "GEO"@ || k == "LAST-MODIFIED"@ || k == "LOCATION"@ || k == "ORGANIZER"@ || k == "PRIORITY"@ || k == "SEQUENCE"@ || k == "STATUS"@ || k == "SUMMARY"@ || k == "TRANSP"@ || k == "URL"@ || k == "RECURID"@ || k == "RRULE"@ || k == "DTEND"@ || k == "DURATION"@ || k == "ATTACH"@ || k == "ATTENDEE"@ || k == "CATEGORIES"@ || k == "COMMENT"@ || k == "CONTACT"@ || k == "EXDATE"@ || k == "RSTATUS"@ || k == "RELATED-TO"@ || k == "RESOURCES"@ || k == "RDATE"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "DTSTAMP"@ { 0 } else if k == "UID"@ { 1 } else if k == "DTSTART"@ { 2 } else if k == "CLASS"@ { 3 } else if k == "CREATED"@ { 4 } else if k == "DESCRIPTION"@ { 5 } else if k == "GEO"@ { 6 } else if k == "LAST-MODIFIED"@ { 7 } else if k == "LOCATION"@ { 8 } else if k == "ORGANIZER"@ { 9 } else if k == "PRIORITY"@ { 10 } else if k == "SEQUENCE"@ { 11 } else if k == "STATUS"@ { 12 } else if k == "SUMMARY"@ { 13 } else if k == "TRANSP"@ { 14 } else if k == "URL"@ { 15 } else if k == "RECURID"@ { 16 } else if k == "RRULE"@ { 17 } else if k == "DTEND"@ { 18 } else if k == "DURATION"@ { 19 } else if k == "ATTACH"@ { 20 } else if k == "ATTENDEE"@ { 21 } else if k == "CATEGORIES"@ { 22 } else if k == "COMMENT"@ { 23 } else if k == "CONTACT"@ { 24 } else if k == "EXDATE"@ { 25 } else if k == "RSTATUS"@ { 26 } else if k == "RELATED-TO"@ { 27 } else if k == "RESOURCES"@ { 28 } else if k == "RDATE"@ { 29 } else { -1 } }
        proof fn lemma_tags() ensures VEvent::tag("DTSTAMP"@) == 0, VEvent::tag("UID"@) == 1, VEvent::tag("DTSTART"@) == 2, VEvent::tag("CLASS"@) == 3, VEvent::tag("CREATED"@) == 4, VEvent::tag("DESCRIPTION"@) == 5, VEvent::tag("GEO"@) == 6, VEvent::tag("LAST-MODIFIED"@) == 7, VEvent::tag("LOCATION"@) == 8, VEvent::tag("ORGANIZER"@) == 9, VEvent::tag("PRIORITY"@) == 10, VEvent::tag("SEQUENCE"@) == 11, VEvent::tag("STATUS"@) == 12, VEvent::tag("SUMMARY"@) == 13, VEvent::tag("TRANSP"@) == 14, VEvent::tag("URL"@) == 15, VEvent::tag("RECURID"@) == 16, VEvent::tag("RRULE"@) == 17, VEvent::tag("DTEND"@) == 18, VEvent::tag("DURATION"@) == 19, VEvent::tag("ATTACH"@) == 20, VEvent::tag("ATTENDEE"@) == 21, VEvent::tag("CATEGORIES"@) == 22, VEvent::tag("COMMENT"@) == 23, VEvent::tag("CONTACT"@) == 24, VEvent::tag("EXDATE"@) == 25, VEvent::tag("RSTATUS"@) == 26, VEvent::tag("RELATED-TO"@) == 27, VEvent::tag("RESOURCES"@) == 28, VEvent::tag("RDATE"@) == 29
        { reveal(VEvent::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("DTSTART"); reveal_strlit("CLASS"); reveal_strlit("CREATED"); reveal_strlit("DESCRIPTION"); reveal_strlit("GEO"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("LOCATION"); reveal_strlit("ORGANIZER"); reveal_strlit("PRIORITY"); reveal_strlit("SEQUENCE"); reveal_strlit("STATUS"); reveal_strlit("SUMMARY"); reveal_strlit("TRANSP"); reveal_strlit("URL"); reveal_strlit("RECURID"); reveal_strlit("RRULE"); reveal_strlit("DTEND"); reveal_strlit("DURATION"); reveal_strlit("ATTACH"); reveal_strlit("ATTENDEE"); reveal_strlit("CATEGORIES"); reveal_strlit("COMMENT"); reveal_strlit("CONTACT"); reveal_strlit("EXDATE"); reveal_strlit("RSTATUS"); reveal_strlit("RELATED-TO"); reveal_strlit("RESOURCES"); reveal_strlit("RDATE"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: VEvent) -> bool {
            &&& last_rel::<P_dtstamp>(ls, c.dtstamp)
            &&& last_rel::<P_uid>(ls, c.uid)
            &&& last_rel::<P_dtstart>(ls, c.dtstart)
            &&& opt_rel::<P_class>(ls, n, c.class)
            &&& opt_rel::<P_created>(ls, n, c.created)
            &&& opt_rel::<P_description>(ls, n, c.description)
            &&& opt_rel::<P_geo>(ls, n, c.geo)
            &&& opt_rel::<P_last_modified>(ls, n, c.last_modified)
            &&& opt_rel::<P_location>(ls, n, c.location)
            &&& opt_rel::<P_organizer>(ls, n, c.organizer)
            &&& opt_rel::<P_priority>(ls, n, c.priority)
            &&& opt_rel::<P_sequence>(ls, n, c.sequence)
            &&& opt_rel::<P_status>(ls, n, c.status)
            &&& opt_rel::<P_summary>(ls, n, c.summary)
            &&& opt_rel::<P_transp>(ls, n, c.transp)
            &&& opt_rel::<P_url>(ls, n, c.url)
            &&& opt_rel::<P_recurid>(ls, n, c.recurid)
            &&& opt_rel::<P_rrule>(ls, n, c.rrule)
            &&& opt_rel::<P_dtend>(ls, n, c.dtend)
            &&& opt_rel::<P_duration>(ls, n, c.duration)
            &&& vec_rel::<P_attach>(ls, n, c.attach@)
            &&& vec_rel::<P_attendee>(ls, n, c.attendee@)
            &&& list_rel::<crate::Text, P_categories>(ls, n, c.categories@)
            &&& vec_rel::<P_comment>(ls, n, c.comment@)
            &&& vec_rel::<P_contact>(ls, n, c.contact@)
            &&& list_rel::<crate::Date, P_exdate>(ls, n, c.exdate@)
            &&& vec_rel::<P_rstatus>(ls, n, c.rstatus@)
            &&& vec_rel::<P_related_to>(ls, n, c.related_to@)
            &&& list_rel::<crate::Text, P_resources>(ls, n, c.resources@)
            &&& vec_rel::<P_rdate>(ls, n, c.rdate@)
            &&& c.alarms@.len() == 0
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !VEvent::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !VEvent::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_dtstamp>(ls)
            ||| last_bad::<P_uid>(ls)
            ||| last_bad::<P_dtstart>(ls)
            ||| some_bad::<P_class>(ls)
            ||| some_bad::<P_created>(ls)
            ||| some_bad::<P_description>(ls)
            ||| some_bad::<P_geo>(ls)
            ||| some_bad::<P_last_modified>(ls)
            ||| some_bad::<P_location>(ls)
            ||| some_bad::<P_organizer>(ls)
            ||| some_bad::<P_priority>(ls)
            ||| some_bad::<P_sequence>(ls)
            ||| some_bad::<P_status>(ls)
            ||| some_bad::<P_summary>(ls)
            ||| some_bad::<P_transp>(ls)
            ||| some_bad::<P_url>(ls)
            ||| some_bad::<P_recurid>(ls)
            ||| some_bad::<P_rrule>(ls)
            ||| some_bad::<P_dtend>(ls)
            ||| some_bad::<P_duration>(ls)
            ||| some_bad::<P_attach>(ls)
            ||| some_bad::<P_attendee>(ls)
            ||| some_bad::<P_categories>(ls)
            ||| some_bad::<P_comment>(ls)
            ||| some_bad::<P_contact>(ls)
            ||| some_bad::<P_exdate>(ls)
            ||| some_bad::<P_rstatus>(ls)
            ||| some_bad::<P_related_to>(ls)
            ||| some_bad::<P_resources>(ls)
            ||| some_bad::<P_rdate>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for VEvent {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<VEvent, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vevent | TryFrom<Vec<crate::ContentLine>> for VEvent
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => VEvent::read(properties@, properties@.len(), c), Err(_) => VEvent::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTAMP"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "UID"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ closure 4 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTART"@)
    //@ closure 5 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { VEvent::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_dtstamp>(ls, component.dtstamp), last_rel::<P_uid>(ls, component.uid), last_rel::<P_dtstart>(ls, component.dtstart), opt_rel::<P_class>(ls, it.index@ as nat, component.class), opt_rel::<P_created>(ls, it.index@ as nat, component.created), opt_rel::<P_description>(ls, it.index@ as nat, component.description), opt_rel::<P_geo>(ls, it.index@ as nat, component.geo), opt_rel::<P_last_modified>(ls, it.index@ as nat, component.last_modified), opt_rel::<P_location>(ls, it.index@ as nat, component.location), opt_rel::<P_organizer>(ls, it.index@ as nat, component.organizer), opt_rel::<P_priority>(ls, it.index@ as nat, component.priority), opt_rel::<P_sequence>(ls, it.index@ as nat, component.sequence), opt_rel::<P_status>(ls, it.index@ as nat, component.status), opt_rel::<P_summary>(ls, it.index@ as nat, component.summary), opt_rel::<P_transp>(ls, it.index@ as nat, component.transp), opt_rel::<P_url>(ls, it.index@ as nat, component.url), opt_rel::<P_recurid>(ls, it.index@ as nat, component.recurid), opt_rel::<P_rrule>(ls, it.index@ as nat, component.rrule), opt_rel::<P_dtend>(ls, it.index@ as nat, component.dtend), opt_rel::<P_duration>(ls, it.index@ as nat, component.duration), vec_rel::<P_attach>(ls, it.index@ as nat, component.attach@), vec_rel::<P_attendee>(ls, it.index@ as nat, component.attendee@), list_rel::<crate::Text, P_categories>(ls, it.index@ as nat, component.categories@), vec_rel::<P_comment>(ls, it.index@ as nat, component.comment@), vec_rel::<P_contact>(ls, it.index@ as nat, component.contact@), list_rel::<crate::Date, P_exdate>(ls, it.index@ as nat, component.exdate@), vec_rel::<P_rstatus>(ls, it.index@ as nat, component.rstatus@), vec_rel::<P_related_to>(ls, it.index@ as nat, component.related_to@), list_rel::<crate::Text, P_resources>(ls, it.index@ as nat, component.resources@), vec_rel::<P_rdate>(ls, it.index@ as nat, component.rdate@), component.alarms@.len() == 0, component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VEvent::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VEvent::known(k) && !is_x(k)), VEvent::tag("DTSTAMP"@) == 0, VEvent::tag("UID"@) == 1, VEvent::tag("DTSTART"@) == 2, VEvent::tag("CLASS"@) == 3, VEvent::tag("CREATED"@) == 4, VEvent::tag("DESCRIPTION"@) == 5, VEvent::tag("GEO"@) == 6, VEvent::tag("LAST-MODIFIED"@) == 7, VEvent::tag("LOCATION"@) == 8, VEvent::tag("ORGANIZER"@) == 9, VEvent::tag("PRIORITY"@) == 10, VEvent::tag("SEQUENCE"@) == 11, VEvent::tag("STATUS"@) == 12, VEvent::tag("SUMMARY"@) == 13, VEvent::tag("TRANSP"@) == 14, VEvent::tag("URL"@) == 15, VEvent::tag("RECURID"@) == 16, VEvent::tag("RRULE"@) == 17, VEvent::tag("DTEND"@) == 18, VEvent::tag("DURATION"@) == 19, VEvent::tag("ATTACH"@) == 20, VEvent::tag("ATTENDEE"@) == 21, VEvent::tag("CATEGORIES"@) == 22, VEvent::tag("COMMENT"@) == 23, VEvent::tag("CONTACT"@) == 24, VEvent::tag("EXDATE"@) == 25, VEvent::tag("RSTATUS"@) == 26, VEvent::tag("RELATED-TO"@) == 27, VEvent::tag("RESOURCES"@) == 28, VEvent::tag("RDATE"@) == 29
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_vfreebusy {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl VFreebusy {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "DTSTAMP"@ || k == "UID"@ || k == "CONTACT"@ || k == "DTSTART"@ || k == "DTEND"@ || k == "ORGANIZER"@ || k == "URL"@ || k == "ATTENDEE"@ || k == "COMMENT"@ || k == "FREEBUSY"@ || k == "RSTATUS"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "DTSTAMP"@ { 0 } else if k == "UID"@ { 1 } else if k == "CONTACT"@ { 2 } else if k == "DTSTART"@ { 3 } else if k == "DTEND"@ { 4 } else if k == "ORGANIZER"@ { 5 } else if k == "URL"@ { 6 } else if k == "ATTENDEE"@ { 7 } else if k == "COMMENT"@ { 8 } else if k == "FREEBUSY"@ { 9 } else if k == "RSTATUS"@ { 10 } else { -1 } }
        proof fn lemma_tags() ensures VFreebusy::tag("DTSTAMP"@) == 0, VFreebusy::tag("UID"@) == 1, VFreebusy::tag("CONTACT"@) == 2, VFreebusy::tag("DTSTART"@) == 3, VFreebusy::tag("DTEND"@) == 4, VFreebusy::tag("ORGANIZER"@) == 5, VFreebusy::tag("URL"@) == 6, VFreebusy::tag("ATTENDEE"@) == 7, VFreebusy::tag("COMMENT"@) == 8, VFreebusy::tag("FREEBUSY"@) == 9, VFreebusy::tag("RSTATUS"@) == 10
        { reveal(VFreebusy::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("CONTACT"); reveal_strlit("DTSTART"); reveal_strlit("DTEND"); reveal_strlit("ORGANIZER"); reveal_strlit("URL"); reveal_strlit("ATTENDEE"); reveal_strlit("COMMENT"); reveal_strlit("FREEBUSY"); reveal_strlit("RSTATUS"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: VFreebusy) -> bool {
            &&& last_rel::<P_dtstamp>(ls, c.dtstamp)
            &&& last_rel::<P_uid>(ls, c.uid)
            &&& opt_rel::<P_contact>(ls, n, c.contact)
            &&& opt_rel::<P_dtstart>(ls, n, c.dtstart)
            &&& opt_rel::<P_dtend>(ls, n, c.dtend)
            &&& opt_rel::<P_organizer>(ls, n, c.organizer)
            &&& opt_rel::<P_url>(ls, n, c.url)
            &&& vec_rel::<P_attendee>(ls, n, c.attendee@)
            &&& vec_rel::<P_comment>(ls, n, c.comment@)
            &&& list_rel::<crate::Period, P_freebusy>(ls, n, c.freebusy@)
            &&& vec_rel::<P_rstatus>(ls, n, c.rstatus@)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !VFreebusy::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !VFreebusy::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_dtstamp>(ls)
            ||| last_bad::<P_uid>(ls)
            ||| some_bad::<P_contact>(ls)
            ||| some_bad::<P_dtstart>(ls)
            ||| some_bad::<P_dtend>(ls)
            ||| some_bad::<P_organizer>(ls)
            ||| some_bad::<P_url>(ls)
            ||| some_bad::<P_attendee>(ls)
            ||| some_bad::<P_comment>(ls)
            ||| some_bad::<P_freebusy>(ls)
            ||| some_bad::<P_rstatus>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for VFreebusy {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<VFreebusy, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vfreebusy | TryFrom<Vec<crate::ContentLine>> for VFreebusy
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => VFreebusy::read(properties@, properties@.len(), c), Err(_) => VFreebusy::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTAMP"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "UID"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { VFreebusy::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_dtstamp>(ls, component.dtstamp), last_rel::<P_uid>(ls, component.uid), opt_rel::<P_contact>(ls, it.index@ as nat, component.contact), opt_rel::<P_dtstart>(ls, it.index@ as nat, component.dtstart), opt_rel::<P_dtend>(ls, it.index@ as nat, component.dtend), opt_rel::<P_organizer>(ls, it.index@ as nat, component.organizer), opt_rel::<P_url>(ls, it.index@ as nat, component.url), vec_rel::<P_attendee>(ls, it.index@ as nat, component.attendee@), vec_rel::<P_comment>(ls, it.index@ as nat, component.comment@), list_rel::<crate::Period, P_freebusy>(ls, it.index@ as nat, component.freebusy@), vec_rel::<P_rstatus>(ls, it.index@ as nat, component.rstatus@), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VFreebusy::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VFreebusy::known(k) && !is_x(k)), VFreebusy::tag("DTSTAMP"@) == 0, VFreebusy::tag("UID"@) == 1, VFreebusy::tag("CONTACT"@) == 2, VFreebusy::tag("DTSTART"@) == 3, VFreebusy::tag("DTEND"@) == 4, VFreebusy::tag("ORGANIZER"@) == 5, VFreebusy::tag("URL"@) == 6, VFreebusy::tag("ATTENDEE"@) == 7, VFreebusy::tag("COMMENT"@) == 8, VFreebusy::tag("FREEBUSY"@) == 9, VFreebusy::tag("RSTATUS"@) == 10
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_vjournal {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl VJournal {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "DTSTAMP"@ || k == "UID"@ || k == "CLASS"@ || k == "CREATED"@ || k == "DTSTART"@ || k == "LAST-MODIFIED"@ || k == "ORGANIZER"@ || k == "RECURID"@ || k == "SEQUENCE"@ || k == "STATUS"@ || k == "SUMMARY"@ || k == "URL"@ || k == "RRULE"@ || k == "ATTACH"@ || k == "ATTENDEE"@ || k == "CATEGORIES"@ || k == "COMMENT"@ || k == "CONTACT"@ || k == "DESCRIPTION"@ || k == "EXDATE"@ || k == "RELATED-TO"@ || k == "RDATE"@ || k == "RSTATUS"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "DTSTAMP"@ { 0 } else if k == "UID"@ { 1 } else if k == "CLASS"@ { 2 } else if k == "CREATED"@ { 3 } else if k == "DTSTART"@ { 4 } else if k == "LAST-MODIFIED"@ { 5 } else if k == "ORGANIZER"@ { 6 } else if k == "RECURID"@ { 7 } else if k == "SEQUENCE"@ { 8 } else if k == "STATUS"@ { 9 } else if k == "SUMMARY"@ { 10 } else if k == "URL"@ { 11 } else if k == "RRULE"@ { 12 } else if k == "ATTACH"@ { 13 } else if k == "ATTENDEE"@ { 14 } else if k == "CATEGORIES"@ { 15 } else if k == "COMMENT"@ { 16 } else if k == "CONTACT"@ { 17 } else if k == "DESCRIPTION"@ { 18 } else if k == "EXDATE"@ { 19 } else if k == "RELATED-TO"@ { 20 } else if k == "RDATE"@ { 21 } else if k == "RSTATUS"@ { 22 } else { -1 } }
        proof fn lemma_tags() ensures VJournal::tag("DTSTAMP"@) == 0, VJournal::tag("UID"@) == 1, VJournal::tag("CLASS"@) == 2, VJournal::tag("CREATED"@) == 3, VJournal::tag("DTSTART"@) == 4, VJournal::tag("LAST-MODIFIED"@) == 5, VJournal::tag("ORGANIZER"@) == 6, VJournal::tag("RECURID"@) == 7, VJournal::tag("SEQUENCE"@) == 8, VJournal::tag("STATUS"@) == 9, VJournal::tag("SUMMARY"@) == 10, VJournal::tag("URL"@) == 11, VJournal::tag("RRULE"@) == 12, VJournal::tag("ATTACH"@) == 13, VJournal::tag("ATTENDEE"@) == 14, VJournal::tag("CATEGORIES"@) == 15, VJournal::tag("COMMENT"@) == 16, VJournal::tag("CONTACT"@) == 17, VJournal::tag("DESCRIPTION"@) == 18, VJournal::tag("EXDATE"@) == 19, VJournal::tag("RELATED-TO"@) == 20, VJournal::tag("RDATE"@) == 21, VJournal::tag("RSTATUS"@) == 22
        { reveal(VJournal::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("CLASS"); reveal_strlit("CREATED"); reveal_strlit("DTSTART"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("ORGANIZER"); reveal_strlit("RECURID"); reveal_strlit("SEQUENCE"); reveal_strlit("STATUS"); reveal_strlit("SUMMARY"); reveal_strlit("URL"); reveal_strlit("RRULE"); reveal_strlit("ATTACH"); reveal_strlit("ATTENDEE"); reveal_strlit("CATEGORIES"); reveal_strlit("COMMENT"); reveal_strlit("CONTACT"); reveal_strlit("DESCRIPTION"); reveal_strlit("EXDATE"); reveal_strlit("RELATED-TO"); reveal_strlit("RDATE"); reveal_strlit("RSTATUS"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: VJournal) -> bool {
            &&& last_rel::<P_dtstamp>(ls, c.dtstamp)
            &&& last_rel::<P_uid>(ls, c.uid)
            &&& opt_rel::<P_class>(ls, n, c.class)
            &&& opt_rel::<P_created>(ls, n, c.created)
            &&& last_rel::<P_dtstart>(ls, c.dtstart)
            &&& opt_rel::<P_last_modified>(ls, n, c.last_modified)
            &&& opt_rel::<P_organizer>(ls, n, c.organizer)
            &&& opt_rel::<P_recurid>(ls, n, c.recurid)
            &&& opt_rel::<P_sequence>(ls, n, c.sequence)
            &&& opt_rel::<P_status>(ls, n, c.status)
            &&& opt_rel::<P_summary>(ls, n, c.summary)
            &&& opt_rel::<P_url>(ls, n, c.url)
            &&& opt_rel::<P_rrule>(ls, n, c.rrule)
            &&& vec_rel::<P_attach>(ls, n, c.attach@)
            &&& vec_rel::<P_attendee>(ls, n, c.attendee@)
            &&& list_rel::<crate::Text, P_categories>(ls, n, c.categories@)
            &&& vec_rel::<P_comment>(ls, n, c.comment@)
            &&& vec_rel::<P_contact>(ls, n, c.contact@)
            &&& vec_rel::<P_description>(ls, n, c.description@)
            &&& list_rel::<crate::Date, P_exdate>(ls, n, c.exdate@)
            &&& vec_rel::<P_related_to>(ls, n, c.related_to@)
            &&& vec_rel::<P_rdate>(ls, n, c.rdate@)
            &&& vec_rel::<P_rstatus>(ls, n, c.rstatus@)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !VJournal::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !VJournal::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_dtstamp>(ls)
            ||| last_bad::<P_uid>(ls)
            ||| some_bad::<P_class>(ls)
            ||| some_bad::<P_created>(ls)
            ||| last_bad::<P_dtstart>(ls)
            ||| some_bad::<P_last_modified>(ls)
            ||| some_bad::<P_organizer>(ls)
            ||| some_bad::<P_recurid>(ls)
            ||| some_bad::<P_sequence>(ls)
            ||| some_bad::<P_status>(ls)
            ||| some_bad::<P_summary>(ls)
            ||| some_bad::<P_url>(ls)
            ||| some_bad::<P_rrule>(ls)
            ||| some_bad::<P_attach>(ls)
            ||| some_bad::<P_attendee>(ls)
            ||| some_bad::<P_categories>(ls)
            ||| some_bad::<P_comment>(ls)
            ||| some_bad::<P_contact>(ls)
            ||| some_bad::<P_description>(ls)
            ||| some_bad::<P_exdate>(ls)
            ||| some_bad::<P_related_to>(ls)
            ||| some_bad::<P_rdate>(ls)
            ||| some_bad::<P_rstatus>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for VJournal {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<VJournal, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vjournal | TryFrom<Vec<crate::ContentLine>> for VJournal
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => VJournal::read(properties@, properties@.len(), c), Err(_) => VJournal::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTAMP"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "UID"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ closure 4 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTART"@)
    //@ closure 5 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { VJournal::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_dtstamp>(ls, component.dtstamp), last_rel::<P_uid>(ls, component.uid), opt_rel::<P_class>(ls, it.index@ as nat, component.class), opt_rel::<P_created>(ls, it.index@ as nat, component.created), last_rel::<P_dtstart>(ls, component.dtstart), opt_rel::<P_last_modified>(ls, it.index@ as nat, component.last_modified), opt_rel::<P_organizer>(ls, it.index@ as nat, component.organizer), opt_rel::<P_recurid>(ls, it.index@ as nat, component.recurid), opt_rel::<P_sequence>(ls, it.index@ as nat, component.sequence), opt_rel::<P_status>(ls, it.index@ as nat, component.status), opt_rel::<P_summary>(ls, it.index@ as nat, component.summary), opt_rel::<P_url>(ls, it.index@ as nat, component.url), opt_rel::<P_rrule>(ls, it.index@ as nat, component.rrule), vec_rel::<P_attach>(ls, it.index@ as nat, component.attach@), vec_rel::<P_attendee>(ls, it.index@ as nat, component.attendee@), list_rel::<crate::Text, P_categories>(ls, it.index@ as nat, component.categories@), vec_rel::<P_comment>(ls, it.index@ as nat, component.comment@), vec_rel::<P_contact>(ls, it.index@ as nat, component.contact@), vec_rel::<P_description>(ls, it.index@ as nat, component.description@), list_rel::<crate::Date, P_exdate>(ls, it.index@ as nat, component.exdate@), vec_rel::<P_related_to>(ls, it.index@ as nat, component.related_to@), vec_rel::<P_rdate>(ls, it.index@ as nat, component.rdate@), vec_rel::<P_rstatus>(ls, it.index@ as nat, component.rstatus@), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VJournal::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VJournal::known(k) && !is_x(k)), VJournal::tag("DTSTAMP"@) == 0, VJournal::tag("UID"@) == 1, VJournal::tag("CLASS"@) == 2, VJournal::tag("CREATED"@) == 3, VJournal::tag("DTSTART"@) == 4, VJournal::tag("LAST-MODIFIED"@) == 5, VJournal::tag("ORGANIZER"@) == 6, VJournal::tag("RECURID"@) == 7, VJournal::tag("SEQUENCE"@) == 8, VJournal::tag("STATUS"@) == 9, VJournal::tag("SUMMARY"@) == 10, VJournal::tag("URL"@) == 11, VJournal::tag("RRULE"@) == 12, VJournal::tag("ATTACH"@) == 13, VJournal::tag("ATTENDEE"@) == 14, VJournal::tag("CATEGORIES"@) == 15, VJournal::tag("COMMENT"@) == 16, VJournal::tag("CONTACT"@) == 17, VJournal::tag("DESCRIPTION"@) == 18, VJournal::tag("EXDATE"@) == 19, VJournal::tag("RELATED-TO"@) == 20, VJournal::tag("RDATE"@) == 21, VJournal::tag("RSTATUS"@) == 22
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_vtodo {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl VTodo {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "DTSTAMP"@ || k == "UID"@ || k == "CLASS"@ || k == "COMPLETED"@ || k == "CREATED"@ || k == "DTSTART"@ || k == "GEO"@ || k == "LAST-MODIFIED"@ || k == "LOCATION"@ || k == "ORGANIZER"@ || k == "PERCENT-COMPLETE"@ || k == "PRIORITY"@ || k == "RECURID"@ || k == "SEQUENCE"@ || k == "STATUS"@ || k == "SUMMARY"@ || k == "URL"@ || k == "RRULE"@ || k == "DUE"@ || k == "DURATION"@ || k == "ATTACH"@ || k == "ATTENDEE"@ || k == "CATEGORIES"@ || k == "COMMENT"@ || k == "CONTACT"@ || k == "EXDATE"@ || k == "RSTATUS"@ || k == "RELATED-TO"@ || k == "RESOURCES"@ || k == "RDATE"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "DTSTAMP"@ { 0 } else if k == "UID"@ { 1 } else if k == "CLASS"@ { 2 } else if k == "COMPLETED"@ { 3 } else if k == "CREATED"@ { 4 } else if k == "DTSTART"@ { 5 } else if k == "GEO"@ { 6 } else if k == "LAST-MODIFIED"@ { 7 } else if k == "LOCATION"@ { 8 } else if k == "ORGANIZER"@ { 9 } else if k == "PERCENT-COMPLETE"@ { 10 } else if k == "PRIORITY"@ { 11 } else if k == "RECURID"@ { 12 } else if k == "SEQUENCE"@ { 13 } else if k == "STATUS"@ { 14 } else if k == "SUMMARY"@ { 15 } else if k == "URL"@ { 16 } else if k == "RRULE"@ { 17 } else if k == "DUE"@ { 18 } else if k == "DURATION"@ { 19 } else if k == "ATTACH"@ { 20 } else if k == "ATTENDEE"@ { 21 } else if k == "CATEGORIES"@ { 22 } else if k == "COMMENT"@ { 23 } else if k == "CONTACT"@ { 24 } else if k == "EXDATE"@ { 25 } else if k == "RSTATUS"@ { 26 } else if k == "RELATED-TO"@ { 27 } else if k == "RESOURCES"@ { 28 } else if k == "RDATE"@ { 29 } else { -1 } }
        proof fn lemma_tags() ensures VTodo::tag("DTSTAMP"@) == 0, VTodo::tag("UID"@) == 1, VTodo::tag("CLASS"@) == 2, VTodo::tag("COMPLETED"@) == 3, VTodo::tag("CREATED"@) == 4, VTodo::tag("DTSTART"@) == 5, VTodo::tag("GEO"@) == 6, VTodo::tag("LAST-MODIFIED"@) == 7, VTodo::tag("LOCATION"@) == 8, VTodo::tag("ORGANIZER"@) == 9, VTodo::tag("PERCENT-COMPLETE"@) == 10, VTodo::tag("PRIORITY"@) == 11, VTodo::tag("RECURID"@) == 12, VTodo::tag("SEQUENCE"@) == 13, VTodo::tag("STATUS"@) == 14, VTodo::tag("SUMMARY"@) == 15, VTodo::tag("URL"@) == 16, VTodo::tag("RRULE"@) == 17, VTodo::tag("DUE"@) == 18, VTodo::tag("DURATION"@) == 19, VTodo::tag("ATTACH"@) == 20, VTodo::tag("ATTENDEE"@) == 21, VTodo::tag("CATEGORIES"@) == 22, VTodo::tag("COMMENT"@) == 23, VTodo::tag("CONTACT"@) == 24, VTodo::tag("EXDATE"@) == 25, VTodo::tag("RSTATUS"@) == 26, VTodo::tag("RELATED-TO"@) == 27, VTodo::tag("RESOURCES"@) == 28, VTodo::tag("RDATE"@) == 29
        { reveal(VTodo::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("CLASS"); reveal_strlit("COMPLETED"); reveal_strlit("CREATED"); reveal_strlit("DTSTART"); reveal_strlit("GEO"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("LOCATION"); reveal_strlit("ORGANIZER"); reveal_strlit("PERCENT-COMPLETE"); reveal_strlit("PRIORITY"); reveal_strlit("RECURID"); reveal_strlit("SEQUENCE"); reveal_strlit("STATUS"); reveal_strlit("SUMMARY"); reveal_strlit("URL"); reveal_strlit("RRULE"); reveal_strlit("DUE"); reveal_strlit("DURATION"); reveal_strlit("ATTACH"); reveal_strlit("ATTENDEE"); reveal_strlit("CATEGORIES"); reveal_strlit("COMMENT"); reveal_strlit("CONTACT"); reveal_strlit("EXDATE"); reveal_strlit("RSTATUS"); reveal_strlit("RELATED-TO"); reveal_strlit("RESOURCES"); reveal_strlit("RDATE"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: VTodo) -> bool {
            &&& last_rel::<P_dtstamp>(ls, c.dtstamp)
            &&& last_rel::<P_uid>(ls, c.uid)
            &&& opt_rel::<P_class>(ls, n, c.class)
            &&& opt_rel::<P_completed>(ls, n, c.completed)
            &&& opt_rel::<P_created>(ls, n, c.created)
            &&& opt_rel::<P_dtstart>(ls, n, c.dtstart)
            &&& opt_rel::<P_geo>(ls, n, c.geo)
            &&& opt_rel::<P_last_modified>(ls, n, c.last_modified)
            &&& opt_rel::<P_location>(ls, n, c.location)
            &&& opt_rel::<P_organizer>(ls, n, c.organizer)
            &&& opt_rel::<P_percent_complete>(ls, n, c.percent_complete)
            &&& opt_rel::<P_priority>(ls, n, c.priority)
            &&& opt_rel::<P_recurid>(ls, n, c.recurid)
            &&& opt_rel::<P_sequence>(ls, n, c.sequence)
            &&& opt_rel::<P_status>(ls, n, c.status)
            &&& opt_rel::<P_summary>(ls, n, c.summary)
            &&& opt_rel::<P_url>(ls, n, c.url)
            &&& opt_rel::<P_rrule>(ls, n, c.rrule)
            &&& opt_rel::<P_due>(ls, n, c.due)
            &&& opt_rel::<P_duration>(ls, n, c.duration)
            &&& vec_rel::<P_attach>(ls, n, c.attach@)
            &&& vec_rel::<P_attendee>(ls, n, c.attendee@)
            &&& list_rel::<crate::Text, P_categories>(ls, n, c.categories@)
            &&& vec_rel::<P_comment>(ls, n, c.comment@)
            &&& vec_rel::<P_contact>(ls, n, c.contact@)
            &&& list_rel::<crate::Date, P_exdate>(ls, n, c.exdate@)
            &&& vec_rel::<P_rstatus>(ls, n, c.rstatus@)
            &&& vec_rel::<P_related_to>(ls, n, c.related_to@)
            &&& list_rel::<crate::Text, P_resources>(ls, n, c.resources@)
            &&& vec_rel::<P_rdate>(ls, n, c.rdate@)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !VTodo::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !VTodo::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_dtstamp>(ls)
            ||| last_bad::<P_uid>(ls)
            ||| some_bad::<P_class>(ls)
            ||| some_bad::<P_completed>(ls)
            ||| some_bad::<P_created>(ls)
            ||| some_bad::<P_dtstart>(ls)
            ||| some_bad::<P_geo>(ls)
            ||| some_bad::<P_last_modified>(ls)
            ||| some_bad::<P_location>(ls)
            ||| some_bad::<P_organizer>(ls)
            ||| some_bad::<P_percent_complete>(ls)
            ||| some_bad::<P_priority>(ls)
            ||| some_bad::<P_recurid>(ls)
            ||| some_bad::<P_sequence>(ls)
            ||| some_bad::<P_status>(ls)
            ||| some_bad::<P_summary>(ls)
            ||| some_bad::<P_url>(ls)
            ||| some_bad::<P_rrule>(ls)
            ||| some_bad::<P_due>(ls)
            ||| some_bad::<P_duration>(ls)
            ||| some_bad::<P_attach>(ls)
            ||| some_bad::<P_attendee>(ls)
            ||| some_bad::<P_categories>(ls)
            ||| some_bad::<P_comment>(ls)
            ||| some_bad::<P_contact>(ls)
            ||| some_bad::<P_exdate>(ls)
            ||| some_bad::<P_rstatus>(ls)
            ||| some_bad::<P_related_to>(ls)
            ||| some_bad::<P_resources>(ls)
            ||| some_bad::<P_rdate>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for VTodo {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<VTodo, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vtodo | TryFrom<Vec<crate::ContentLine>> for VTodo
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => VTodo::read(properties@, properties@.len(), c), Err(_) => VTodo::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTAMP"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "UID"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { VTodo::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_dtstamp>(ls, component.dtstamp), last_rel::<P_uid>(ls, component.uid), opt_rel::<P_class>(ls, it.index@ as nat, component.class), opt_rel::<P_completed>(ls, it.index@ as nat, component.completed), opt_rel::<P_created>(ls, it.index@ as nat, component.created), opt_rel::<P_dtstart>(ls, it.index@ as nat, component.dtstart), opt_rel::<P_geo>(ls, it.index@ as nat, component.geo), opt_rel::<P_last_modified>(ls, it.index@ as nat, component.last_modified), opt_rel::<P_location>(ls, it.index@ as nat, component.location), opt_rel::<P_organizer>(ls, it.index@ as nat, component.organizer), opt_rel::<P_percent_complete>(ls, it.index@ as nat, component.percent_complete), opt_rel::<P_priority>(ls, it.index@ as nat, component.priority), opt_rel::<P_recurid>(ls, it.index@ as nat, component.recurid), opt_rel::<P_sequence>(ls, it.index@ as nat, component.sequence), opt_rel::<P_status>(ls, it.index@ as nat, component.status), opt_rel::<P_summary>(ls, it.index@ as nat, component.summary), opt_rel::<P_url>(ls, it.index@ as nat, component.url), opt_rel::<P_rrule>(ls, it.index@ as nat, component.rrule), opt_rel::<P_due>(ls, it.index@ as nat, component.due), opt_rel::<P_duration>(ls, it.index@ as nat, component.duration), vec_rel::<P_attach>(ls, it.index@ as nat, component.attach@), vec_rel::<P_attendee>(ls, it.index@ as nat, component.attendee@), list_rel::<crate::Text, P_categories>(ls, it.index@ as nat, component.categories@), vec_rel::<P_comment>(ls, it.index@ as nat, component.comment@), vec_rel::<P_contact>(ls, it.index@ as nat, component.contact@), list_rel::<crate::Date, P_exdate>(ls, it.index@ as nat, component.exdate@), vec_rel::<P_rstatus>(ls, it.index@ as nat, component.rstatus@), vec_rel::<P_related_to>(ls, it.index@ as nat, component.related_to@), list_rel::<crate::Text, P_resources>(ls, it.index@ as nat, component.resources@), vec_rel::<P_rdate>(ls, it.index@ as nat, component.rdate@), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VTodo::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VTodo::known(k) && !is_x(k)), VTodo::tag("DTSTAMP"@) == 0, VTodo::tag("UID"@) == 1, VTodo::tag("CLASS"@) == 2, VTodo::tag("COMPLETED"@) == 3, VTodo::tag("CREATED"@) == 4, VTodo::tag("DTSTART"@) == 5, VTodo::tag("GEO"@) == 6, VTodo::tag("LAST-MODIFIED"@) == 7, VTodo::tag("LOCATION"@) == 8, VTodo::tag("ORGANIZER"@) == 9, VTodo::tag("PERCENT-COMPLETE"@) == 10, VTodo::tag("PRIORITY"@) == 11, VTodo::tag("RECURID"@) == 12, VTodo::tag("SEQUENCE"@) == 13, VTodo::tag("STATUS"@) == 14, VTodo::tag("SUMMARY"@) == 15, VTodo::tag("URL"@) == 16, VTodo::tag("RRULE"@) == 17, VTodo::tag("DUE"@) == 18, VTodo::tag("DURATION"@) == 19, VTodo::tag("ATTACH"@) == 20, VTodo::tag("ATTENDEE"@) == 21, VTodo::tag("CATEGORIES"@) == 22, VTodo::tag("COMMENT"@) == 23, VTodo::tag("CONTACT"@) == 24, VTodo::tag("EXDATE"@) == 25, VTodo::tag("RSTATUS"@) == 26, VTodo::tag("RELATED-TO"@) == 27, VTodo::tag("RESOURCES"@) == 28, VTodo::tag("RDATE"@) == 29
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_audio {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl Audio {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "ACTION"@ || k == "TRIGGER"@ || k == "DURATION"@ || k == "REPEAT"@ || k == "ATTACH"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "ACTION"@ { 0 } else if k == "TRIGGER"@ { 1 } else if k == "DURATION"@ { 2 } else if k == "REPEAT"@ { 3 } else if k == "ATTACH"@ { 4 } else { -1 } }
        proof fn lemma_tags() ensures Audio::tag("ACTION"@) == 0, Audio::tag("TRIGGER"@) == 1, Audio::tag("DURATION"@) == 2, Audio::tag("REPEAT"@) == 3, Audio::tag("ATTACH"@) == 4
        { reveal(Audio::tag); reveal_strlit("ACTION"); reveal_strlit("TRIGGER"); reveal_strlit("DURATION"); reveal_strlit("REPEAT"); reveal_strlit("ATTACH"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: Audio) -> bool {
            &&& last_rel::<P_action>(ls, c.action)
            &&& last_rel::<P_trigger>(ls, c.trigger)
            &&& opt_rel::<P_duration>(ls, n, c.duration)
            &&& opt_rel::<P_repeat>(ls, n, c.repeat)
            &&& vec_rel::<P_attach>(ls, n, c.attach@)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !Audio::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !Audio::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_action>(ls)
            ||| last_bad::<P_trigger>(ls)
            ||| some_bad::<P_duration>(ls)
            ||| some_bad::<P_repeat>(ls)
            ||| some_bad::<P_attach>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for Audio {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<Audio, crate::Error> { arbitrary() }
    }
    //@ props C03,C11,C18
    //@ impl crate::components::valarm | TryFrom<Vec<crate::ContentLine>> for Audio
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => Audio::read(properties@, properties@.len(), c), Err(_) => Audio::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "ACTION"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TRIGGER"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { Audio::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_action>(ls, component.action), last_rel::<P_trigger>(ls, component.trigger), opt_rel::<P_duration>(ls, it.index@ as nat, component.duration), opt_rel::<P_repeat>(ls, it.index@ as nat, component.repeat), vec_rel::<P_attach>(ls, it.index@ as nat, component.attach@), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Audio::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Audio::known(k) && !is_x(k)), Audio::tag("ACTION"@) == 0, Audio::tag("TRIGGER"@) == 1, Audio::tag("DURATION"@) == 2, Audio::tag("REPEAT"@) == 3, Audio::tag("ATTACH"@) == 4
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_display {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl Display {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "ACTION"@ || k == "TRIGGER"@ || k == "DESCRIPTION"@ || k == "DURATION"@ || k == "REPEAT"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "ACTION"@ { 0 } else if k == "TRIGGER"@ { 1 } else if k == "DESCRIPTION"@ { 2 } else if k == "DURATION"@ { 3 } else if k == "REPEAT"@ { 4 } else { -1 } }
        proof fn lemma_tags() ensures Display::tag("ACTION"@) == 0, Display::tag("TRIGGER"@) == 1, Display::tag("DESCRIPTION"@) == 2, Display::tag("DURATION"@) == 3, Display::tag("REPEAT"@) == 4
        { reveal(Display::tag); reveal_strlit("ACTION"); reveal_strlit("TRIGGER"); reveal_strlit("DESCRIPTION"); reveal_strlit("DURATION"); reveal_strlit("REPEAT"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: Display) -> bool {
            &&& last_rel::<P_action>(ls, c.action)
            &&& last_rel::<P_trigger>(ls, c.trigger)
            &&& last_rel::<P_description>(ls, c.description)
            &&& opt_rel::<P_duration>(ls, n, c.duration)
            &&& opt_rel::<P_repeat>(ls, n, c.repeat)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !Display::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !Display::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_action>(ls)
            ||| last_bad::<P_trigger>(ls)
            ||| last_bad::<P_description>(ls)
            ||| some_bad::<P_duration>(ls)
            ||| some_bad::<P_repeat>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for Display {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<Display, crate::Error> { arbitrary() }
    }
    //@ props C03,C11,C18
    //@ impl crate::components::valarm | TryFrom<Vec<crate::ContentLine>> for Display
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => Display::read(properties@, properties@.len(), c), Err(_) => Display::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "ACTION"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TRIGGER"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ closure 4 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DESCRIPTION"@)
    //@ closure 5 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { Display::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_action>(ls, component.action), last_rel::<P_trigger>(ls, component.trigger), last_rel::<P_description>(ls, component.description), opt_rel::<P_duration>(ls, it.index@ as nat, component.duration), opt_rel::<P_repeat>(ls, it.index@ as nat, component.repeat), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Display::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Display::known(k) && !is_x(k)), Display::tag("ACTION"@) == 0, Display::tag("TRIGGER"@) == 1, Display::tag("DESCRIPTION"@) == 2, Display::tag("DURATION"@) == 3, Display::tag("REPEAT"@) == 4
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_email {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl Email {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "ACTION"@ || k == "TRIGGER"@ || k == "DESCRIPTION"@ || k == "SUMMARY"@ || k == "ATTENDEE"@ || k == "DURATION"@ || k == "REPEAT"@ || k == "ATTACH"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "ACTION"@ { 0 } else if k == "TRIGGER"@ { 1 } else if k == "DESCRIPTION"@ { 2 } else if k == "SUMMARY"@ { 3 } else if k == "ATTENDEE"@ { 4 } else if k == "DURATION"@ { 5 } else if k == "REPEAT"@ { 6 } else if k == "ATTACH"@ { 7 } else { -1 } }
        proof fn lemma_tags() ensures Email::tag("ACTION"@) == 0, Email::tag("TRIGGER"@) == 1, Email::tag("DESCRIPTION"@) == 2, Email::tag("SUMMARY"@) == 3, Email::tag("ATTENDEE"@) == 4, Email::tag("DURATION"@) == 5, Email::tag("REPEAT"@) == 6, Email::tag("ATTACH"@) == 7
        { reveal(Email::tag); reveal_strlit("ACTION"); reveal_strlit("TRIGGER"); reveal_strlit("DESCRIPTION"); reveal_strlit("SUMMARY"); reveal_strlit("ATTENDEE"); reveal_strlit("DURATION"); reveal_strlit("REPEAT"); reveal_strlit("ATTACH"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: Email) -> bool {
            &&& last_rel::<P_action>(ls, c.action)
            &&& last_rel::<P_trigger>(ls, c.trigger)
            &&& last_rel::<P_description>(ls, c.description)
            &&& last_rel::<P_summary>(ls, c.summary)
            &&& vec_rel::<P_attendee>(ls, n, c.attendee@)
            &&& opt_rel::<P_duration>(ls, n, c.duration)
            &&& opt_rel::<P_repeat>(ls, n, c.repeat)
            &&& vec_rel::<P_attach>(ls, n, c.attach@)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !Email::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !Email::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_action>(ls)
            ||| last_bad::<P_trigger>(ls)
            ||| last_bad::<P_description>(ls)
            ||| last_bad::<P_summary>(ls)
            ||| some_bad::<P_attendee>(ls)
            ||| some_bad::<P_duration>(ls)
            ||| some_bad::<P_repeat>(ls)
            ||| some_bad::<P_attach>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for Email {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<Email, crate::Error> { arbitrary() }
    }
    //@ props C03,C11,C18
    //@ impl crate::components::valarm | TryFrom<Vec<crate::ContentLine>> for Email
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => Email::read(properties@, properties@.len(), c), Err(_) => Email::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "ACTION"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TRIGGER"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ closure 4 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DESCRIPTION"@)
    //@ closure 5 || -> (q: crate::Error)
    //@ closure 6 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "SUMMARY"@)
    //@ closure 7 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { Email::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_action>(ls, component.action), last_rel::<P_trigger>(ls, component.trigger), last_rel::<P_description>(ls, component.description), last_rel::<P_summary>(ls, component.summary), vec_rel::<P_attendee>(ls, it.index@ as nat, component.attendee@), opt_rel::<P_duration>(ls, it.index@ as nat, component.duration), opt_rel::<P_repeat>(ls, it.index@ as nat, component.repeat), vec_rel::<P_attach>(ls, it.index@ as nat, component.attach@), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Email::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Email::known(k) && !is_x(k)), Email::tag("ACTION"@) == 0, Email::tag("TRIGGER"@) == 1, Email::tag("DESCRIPTION"@) == 2, Email::tag("SUMMARY"@) == 3, Email::tag("ATTENDEE"@) == 4, Email::tag("DURATION"@) == 5, Email::tag("REPEAT"@) == 6, Email::tag("ATTACH"@) == 7
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_vtimezone {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl VTimezone {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "TZID"@ || k == "LAST-MODIFIED"@ || k == "TZURL"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "TZID"@ { 0 } else if k == "LAST-MODIFIED"@ { 1 } else if k == "TZURL"@ { 2 } else { -1 } }
        proof fn lemma_tags() ensures VTimezone::tag("TZID"@) == 0, VTimezone::tag("LAST-MODIFIED"@) == 1, VTimezone::tag("TZURL"@) == 2
        { reveal(VTimezone::tag); reveal_strlit("TZID"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("TZURL"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: VTimezone) -> bool {
            &&& last_rel::<P_tzid>(ls, c.tzid)
            &&& opt_rel::<P_last_modified>(ls, n, c.last_modified)
            &&& opt_rel::<P_tzurl>(ls, n, c.tzurl)
            &&& c.standard@.len() == 0
            &&& c.daylight@.len() == 0
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !VTimezone::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !VTimezone::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_tzid>(ls)
            ||| some_bad::<P_last_modified>(ls)
            ||| some_bad::<P_tzurl>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for VTimezone {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<VTimezone, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vtimezone | TryFrom<Vec<crate::ContentLine>> for VTimezone
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => VTimezone::read(properties@, properties@.len(), c), Err(_) => VTimezone::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TZID"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { VTimezone::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_tzid>(ls, component.tzid), opt_rel::<P_last_modified>(ls, it.index@ as nat, component.last_modified), opt_rel::<P_tzurl>(ls, it.index@ as nat, component.tzurl), component.standard@.len() == 0, component.daylight@.len() == 0, component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VTimezone::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !VTimezone::known(k) && !is_x(k)), VTimezone::tag("TZID"@) == 0, VTimezone::tag("LAST-MODIFIED"@) == 1, VTimezone::tag("TZURL"@) == 2
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_standard {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl Standard {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "DTSTART"@ || k == "TZOFFSETTO"@ || k == "TZOFFSETFROM"@ || k == "RRULE"@ || k == "COMMENT"@ || k == "RDATE"@ || k == "TZNAME"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "DTSTART"@ { 0 } else if k == "TZOFFSETTO"@ { 1 } else if k == "TZOFFSETFROM"@ { 2 } else if k == "RRULE"@ { 3 } else if k == "COMMENT"@ { 4 } else if k == "RDATE"@ { 5 } else if k == "TZNAME"@ { 6 } else { -1 } }
        proof fn lemma_tags() ensures Standard::tag("DTSTART"@) == 0, Standard::tag("TZOFFSETTO"@) == 1, Standard::tag("TZOFFSETFROM"@) == 2, Standard::tag("RRULE"@) == 3, Standard::tag("COMMENT"@) == 4, Standard::tag("RDATE"@) == 5, Standard::tag("TZNAME"@) == 6
        { reveal(Standard::tag); reveal_strlit("DTSTART"); reveal_strlit("TZOFFSETTO"); reveal_strlit("TZOFFSETFROM"); reveal_strlit("RRULE"); reveal_strlit("COMMENT"); reveal_strlit("RDATE"); reveal_strlit("TZNAME"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: Standard) -> bool {
            &&& last_rel::<P_dtstart>(ls, c.dtstart)
            &&& last_rel::<P_tzoffsetto>(ls, c.tzoffsetto)
            &&& last_rel::<P_tzoffsetfrom>(ls, c.tzoffsetfrom)
            &&& opt_rel::<P_rrule>(ls, n, c.rrule)
            &&& vec_rel::<P_comment>(ls, n, c.comment@)
            &&& vec_rel::<P_rdate>(ls, n, c.rdate@)
            &&& vec_rel::<P_tzname>(ls, n, c.tzname@)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !Standard::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !Standard::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_dtstart>(ls)
            ||| last_bad::<P_tzoffsetto>(ls)
            ||| last_bad::<P_tzoffsetfrom>(ls)
            ||| some_bad::<P_rrule>(ls)
            ||| some_bad::<P_comment>(ls)
            ||| some_bad::<P_rdate>(ls)
            ||| some_bad::<P_tzname>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for Standard {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<Standard, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vtimezone | TryFrom<Vec<crate::ContentLine>> for Standard
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => Standard::read(properties@, properties@.len(), c), Err(_) => Standard::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTART"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TZOFFSETTO"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ closure 4 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TZOFFSETFROM"@)
    //@ closure 5 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { Standard::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_dtstart>(ls, component.dtstart), last_rel::<P_tzoffsetto>(ls, component.tzoffsetto), last_rel::<P_tzoffsetfrom>(ls, component.tzoffsetfrom), opt_rel::<P_rrule>(ls, it.index@ as nat, component.rrule), vec_rel::<P_comment>(ls, it.index@ as nat, component.comment@), vec_rel::<P_rdate>(ls, it.index@ as nat, component.rdate@), vec_rel::<P_tzname>(ls, it.index@ as nat, component.tzname@), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Standard::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Standard::known(k) && !is_x(k)), Standard::tag("DTSTART"@) == 0, Standard::tag("TZOFFSETTO"@) == 1, Standard::tag("TZOFFSETFROM"@) == 2, Standard::tag("RRULE"@) == 3, Standard::tag("COMMENT"@) == 4, Standard::tag("RDATE"@) == 5, Standard::tag("TZNAME"@) == 6
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
pub mod r_daylight {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use {crate::xstd::ax_str_ext, crate::rlines::group_rlines};
    //@ rename iter vx_iter
    //@ rename filter vx_filter
    //@ rename starts_with vx_starts_with
    impl Daylight {
        /// the properties it knows
        pub open spec fn known(k: Seq<char>) -> bool { k == "DTSTART"@ || k == "TZOFFSETTO"@ || k == "TZOFFSETFROM"@ || k == "RRULE"@ || k == "COMMENT"@ || k == "RDATE"@ || k == "TZNAME"@ }
        #[verifier::opaque]
        pub open spec fn tag(k: Seq<char>) -> int { if k == "DTSTART"@ { 0 } else if k == "TZOFFSETTO"@ { 1 } else if k == "TZOFFSETFROM"@ { 2 } else if k == "RRULE"@ { 3 } else if k == "COMMENT"@ { 4 } else if k == "RDATE"@ { 5 } else if k == "TZNAME"@ { 6 } else { -1 } }
        proof fn lemma_tags() ensures Daylight::tag("DTSTART"@) == 0, Daylight::tag("TZOFFSETTO"@) == 1, Daylight::tag("TZOFFSETFROM"@) == 2, Daylight::tag("RRULE"@) == 3, Daylight::tag("COMMENT"@) == 4, Daylight::tag("RDATE"@) == 5, Daylight::tag("TZNAME"@) == 6
        { reveal(Daylight::tag); reveal_strlit("DTSTART"); reveal_strlit("TZOFFSETTO"); reveal_strlit("TZOFFSETFROM"); reveal_strlit("RRULE"); reveal_strlit("COMMENT"); reveal_strlit("RDATE"); reveal_strlit("TZNAME"); }
        /// after the first n lines (the required properties are read beforehand)
        pub open spec fn read(ls: Seq<ContentLine>, n: nat, c: Daylight) -> bool {
            &&& last_rel::<P_dtstart>(ls, c.dtstart)
            &&& last_rel::<P_tzoffsetto>(ls, c.tzoffsetto)
            &&& last_rel::<P_tzoffsetfrom>(ls, c.tzoffsetfrom)
            &&& opt_rel::<P_rrule>(ls, n, c.rrule)
            &&& vec_rel::<P_comment>(ls, n, c.comment@)
            &&& vec_rel::<P_rdate>(ls, n, c.rdate@)
            &&& vec_rel::<P_tzname>(ls, n, c.tzname@)
            &&& c.x_prop.map() == others(ls, n, |k: Seq<char>| !Daylight::known(k) && is_x(k))
            &&& c.iana_prop.map() == others(ls, n, |k: Seq<char>| !Daylight::known(k) && !is_x(k))
        }
        /// a required property is missing or wrong, or a line of another known property is
        pub open spec fn unreadable(ls: Seq<ContentLine>) -> bool {
            ||| last_bad::<P_dtstart>(ls)
            ||| last_bad::<P_tzoffsetto>(ls)
            ||| last_bad::<P_tzoffsetfrom>(ls)
            ||| some_bad::<P_rrule>(ls)
            ||| some_bad::<P_comment>(ls)
            ||| some_bad::<P_rdate>(ls)
            ||| some_bad::<P_tzname>(ls)
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for Daylight {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<Daylight, crate::Error> { arbitrary() }
    }
    //@ props C03,C11
    //@ impl crate::components::vtimezone | TryFrom<Vec<crate::ContentLine>> for Daylight
    //@ method try_from
    //@ ret r
        ensures match r { Ok(c) => Daylight::read(properties@, properties@.len(), c), Err(_) => Daylight::unreadable(properties@) }
    //@ noreveal
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "DTSTART"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ closure 2 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TZOFFSETTO"@)
    //@ closure 3 || -> (q: crate::Error)
    //@ closure 4 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "TZOFFSETFROM"@)
    //@ closure 5 || -> (q: crate::Error)
    //@ head
        let ghost ls = properties@;
        proof { Daylight::lemma_tags(); }
    //@ loop 0 it
            invariant it.seq() == ls, last_rel::<P_dtstart>(ls, component.dtstart), last_rel::<P_tzoffsetto>(ls, component.tzoffsetto), last_rel::<P_tzoffsetfrom>(ls, component.tzoffsetfrom), opt_rel::<P_rrule>(ls, it.index@ as nat, component.rrule), vec_rel::<P_comment>(ls, it.index@ as nat, component.comment@), vec_rel::<P_rdate>(ls, it.index@ as nat, component.rdate@), vec_rel::<P_tzname>(ls, it.index@ as nat, component.tzname@), component.x_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Daylight::known(k) && is_x(k)), component.iana_prop.map() == others(ls, it.index@ as nat, |k: Seq<char>| !Daylight::known(k) && !is_x(k)), Daylight::tag("DTSTART"@) == 0, Daylight::tag("TZOFFSETTO"@) == 1, Daylight::tag("TZOFFSETFROM"@) == 2, Daylight::tag("RRULE"@) == 3, Daylight::tag("COMMENT"@) == 4, Daylight::tag("RDATE"@) == 5, Daylight::tag("TZNAME"@) == 6
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename filter
    //@ norename starts_with
    //@ props
}
