// generated by tools/gencomp.py
// Which property a parser reads, and what it makes of its line.
#[allow(non_camel_case_types)]
pub mod prop {
    use vstd::prelude::*;
    use crate::ContentLine;
    use crate::xstd::str::FromStr;
    use crate::parser::datatype::*;
    pub trait Prop {
        type V;
        spec fn name() -> Seq<char>;
        /// the line may stand for the value; it may be an error
        spec fn ok(cl: ContentLine, v: Self::V) -> bool;
        spec fn err(cl: ContentLine) -> bool;
    }
    pub struct P_action;
    impl Prop for P_action {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "ACTION"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_attach;
    impl Prop for P_attach {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "ATTACH"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_attendee;
    impl Prop for P_attendee {
        type V = crate::Uri;
        open spec fn name() -> Seq<char> { "ATTENDEE"@ }
        open spec fn ok(cl: ContentLine, v: crate::Uri) -> bool { v.uri@ == cl.value@ && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_calscale;
    impl Prop for P_calscale {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "CALSCALE"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_categories;
    impl Prop for P_categories {
        type V = Vec<crate::Text>;
        open spec fn name() -> Seq<char> { "CATEGORIES"@ }
        open spec fn ok(cl: ContentLine, v: Vec<crate::Text>) -> bool { texts_ok(cl, v@) }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_class;
    impl Prop for P_class {
        type V = crate::Class;
        open spec fn name() -> Seq<char> { "CLASS"@ }
        open spec fn ok(cl: ContentLine, v: crate::Class) -> bool { <crate::Class as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <crate::Class as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_comment;
    impl Prop for P_comment {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "COMMENT"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_completed;
    impl Prop for P_completed {
        type V = crate::DateTime;
        open spec fn name() -> Seq<char> { "COMPLETED"@ }
        open spec fn ok(cl: ContentLine, v: crate::DateTime) -> bool { dt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dt_err(cl.value@) }
    }
    pub struct P_contact;
    impl Prop for P_contact {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "CONTACT"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_created;
    impl Prop for P_created {
        type V = crate::DateTime;
        open spec fn name() -> Seq<char> { "CREATED"@ }
        open spec fn ok(cl: ContentLine, v: crate::DateTime) -> bool { dt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dt_err(cl.value@) }
    }
    pub struct P_description;
    impl Prop for P_description {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "DESCRIPTION"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_dtend;
    impl Prop for P_dtend {
        type V = crate::Date;
        open spec fn name() -> Seq<char> { "DTEND"@ }
        open spec fn ok(cl: ContentLine, v: crate::Date) -> bool { dodt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dodt_err(cl.value@) }
    }
    pub struct P_dtstamp;
    impl Prop for P_dtstamp {
        type V = crate::DateTime;
        open spec fn name() -> Seq<char> { "DTSTAMP"@ }
        open spec fn ok(cl: ContentLine, v: crate::DateTime) -> bool { dt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dt_err(cl.value@) }
    }
    pub struct P_dtstart;
    impl Prop for P_dtstart {
        type V = crate::Date;
        open spec fn name() -> Seq<char> { "DTSTART"@ }
        open spec fn ok(cl: ContentLine, v: crate::Date) -> bool { dodt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dodt_err(cl.value@) }
    }
    pub struct P_due;
    impl Prop for P_due {
        type V = crate::Date;
        open spec fn name() -> Seq<char> { "DUE"@ }
        open spec fn ok(cl: ContentLine, v: crate::Date) -> bool { dodt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dodt_err(cl.value@) }
    }
    pub struct P_duration;
    impl Prop for P_duration {
        type V = crate::chrono::TimeDelta;
        open spec fn name() -> Seq<char> { "DURATION"@ }
        open spec fn ok(cl: ContentLine, v: crate::chrono::TimeDelta) -> bool { crate::spans::span_text(cl.value@, v.ns()) }
        open spec fn err(cl: ContentLine) -> bool { crate::spans::no_span_text(cl.value@) }
    }
    pub struct P_exdate;
    impl Prop for P_exdate {
        type V = Vec<crate::Date>;
        open spec fn name() -> Seq<char> { "EXDATE"@ }
        open spec fn ok(cl: ContentLine, v: Vec<crate::Date>) -> bool { dates_ok(cl.value@, v@) }
        open spec fn err(cl: ContentLine) -> bool { dates_err(cl.value@) }
    }
    pub struct P_freebusy;
    impl Prop for P_freebusy {
        type V = Vec<crate::Period>;
        open spec fn name() -> Seq<char> { "FREEBUSY"@ }
        open spec fn ok(cl: ContentLine, v: Vec<crate::Period>) -> bool { periods_ok(cl.value@, v@) }
        open spec fn err(cl: ContentLine) -> bool { periods_err(cl.value@) }
    }
    pub struct P_geo;
    impl Prop for P_geo {
        type V = crate::Geo;
        open spec fn name() -> Seq<char> { "GEO"@ }
        open spec fn ok(cl: ContentLine, v: crate::Geo) -> bool { geo_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { geo_err(cl.value@) }
    }
    pub struct P_last_modified;
    impl Prop for P_last_modified {
        type V = crate::DateTime;
        open spec fn name() -> Seq<char> { "LAST-MODIFIED"@ }
        open spec fn ok(cl: ContentLine, v: crate::DateTime) -> bool { dt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dt_err(cl.value@) }
    }
    pub struct P_location;
    impl Prop for P_location {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "LOCATION"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_method;
    impl Prop for P_method {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "METHOD"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_organizer;
    impl Prop for P_organizer {
        type V = crate::Uri;
        open spec fn name() -> Seq<char> { "ORGANIZER"@ }
        open spec fn ok(cl: ContentLine, v: crate::Uri) -> bool { v.uri@ == cl.value@ && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_percent_complete;
    impl Prop for P_percent_complete {
        type V = u8;
        open spec fn name() -> Seq<char> { "PERCENT-COMPLETE"@ }
        open spec fn ok(cl: ContentLine, v: u8) -> bool { <u8 as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <u8 as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_priority;
    impl Prop for P_priority {
        type V = u8;
        open spec fn name() -> Seq<char> { "PRIORITY"@ }
        open spec fn ok(cl: ContentLine, v: u8) -> bool { crate::xstd::num::int_text(cl.value@, v as int, false) && v <= 9 }
        open spec fn err(cl: ContentLine) -> bool { forall|v: int| 0 <= v <= 9 ==> !#[trigger] crate::xstd::num::int_text(cl.value@, v, false) }
    }
    pub struct P_prodid;
    impl Prop for P_prodid {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "PRODID"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_rdate;
    impl Prop for P_rdate {
        type V = crate::RDate;
        open spec fn name() -> Seq<char> { "RDATE"@ }
        open spec fn ok(cl: ContentLine, v: crate::RDate) -> bool { rdate_ok(cl, v) }
        open spec fn err(cl: ContentLine) -> bool { rdate_err(cl) }
    }
    pub struct P_recurid;
    impl Prop for P_recurid {
        type V = crate::Date;
        open spec fn name() -> Seq<char> { "RECURID"@ }
        open spec fn ok(cl: ContentLine, v: crate::Date) -> bool { dodt_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { dodt_err(cl.value@) }
    }
    pub struct P_related_to;
    impl Prop for P_related_to {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "RELATED-TO"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_repeat;
    impl Prop for P_repeat {
        type V = u32;
        open spec fn name() -> Seq<char> { "REPEAT"@ }
        open spec fn ok(cl: ContentLine, v: u32) -> bool { <u32 as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <u32 as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_resources;
    impl Prop for P_resources {
        type V = Vec<crate::Text>;
        open spec fn name() -> Seq<char> { "RESOURCES"@ }
        open spec fn ok(cl: ContentLine, v: Vec<crate::Text>) -> bool { texts_ok(cl, v@) }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_rrule;
    impl Prop for P_rrule {
        type V = crate::Recur;
        open spec fn name() -> Seq<char> { "RRULE"@ }
        open spec fn ok(cl: ContentLine, v: crate::Recur) -> bool { crate::rules::rule_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { crate::rules::rule_err(cl.value@) }
    }
    pub struct P_rstatus;
    impl Prop for P_rstatus {
        type V = crate::RequestStatus;
        open spec fn name() -> Seq<char> { "RSTATUS"@ }
        open spec fn ok(cl: ContentLine, v: crate::RequestStatus) -> bool { rstatus_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { rstatus_err(cl.value@) }
    }
    pub struct P_sequence;
    impl Prop for P_sequence {
        type V = u32;
        open spec fn name() -> Seq<char> { "SEQUENCE"@ }
        open spec fn ok(cl: ContentLine, v: u32) -> bool { <u32 as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <u32 as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_status;
    impl Prop for P_status {
        type V = crate::Status;
        open spec fn name() -> Seq<char> { "STATUS"@ }
        open spec fn ok(cl: ContentLine, v: crate::Status) -> bool { <crate::Status as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <crate::Status as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_summary;
    impl Prop for P_summary {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "SUMMARY"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_transp;
    impl Prop for P_transp {
        type V = crate::TimeTransparency;
        open spec fn name() -> Seq<char> { "TRANSP"@ }
        open spec fn ok(cl: ContentLine, v: crate::TimeTransparency) -> bool { <crate::TimeTransparency as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <crate::TimeTransparency as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_trigger;
    impl Prop for P_trigger {
        type V = crate::Trigger;
        open spec fn name() -> Seq<char> { "TRIGGER"@ }
        open spec fn ok(cl: ContentLine, v: crate::Trigger) -> bool { trigger_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { crate::spans::no_span_text(cl.value@) && dt_err(cl.value@) }
    }
    pub struct P_tzid;
    impl Prop for P_tzid {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "TZID"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_tzname;
    impl Prop for P_tzname {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "TZNAME"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_tzoffsetfrom;
    impl Prop for P_tzoffsetfrom {
        type V = crate::chrono::FixedOffset;
        open spec fn name() -> Seq<char> { "TZOFFSETFROM"@ }
        open spec fn ok(cl: ContentLine, v: crate::chrono::FixedOffset) -> bool { <crate::chrono::FixedOffset as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <crate::chrono::FixedOffset as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_tzoffsetto;
    impl Prop for P_tzoffsetto {
        type V = crate::chrono::FixedOffset;
        open spec fn name() -> Seq<char> { "TZOFFSETTO"@ }
        open spec fn ok(cl: ContentLine, v: crate::chrono::FixedOffset) -> bool { <crate::chrono::FixedOffset as FromStr>::parse_ok(cl.value@, v) }
        open spec fn err(cl: ContentLine) -> bool { <crate::chrono::FixedOffset as FromStr>::parse_err(cl.value@) }
    }
    pub struct P_tzurl;
    impl Prop for P_tzurl {
        type V = crate::Uri;
        open spec fn name() -> Seq<char> { "TZURL"@ }
        open spec fn ok(cl: ContentLine, v: crate::Uri) -> bool { v.uri@ == cl.value@ && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_uid;
    impl Prop for P_uid {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "UID"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_url;
    impl Prop for P_url {
        type V = crate::Uri;
        open spec fn name() -> Seq<char> { "URL"@ }
        open spec fn ok(cl: ContentLine, v: crate::Uri) -> bool { v.uri@ == cl.value@ && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
    pub struct P_version;
    impl Prop for P_version {
        type V = crate::Text;
        open spec fn name() -> Seq<char> { "VERSION"@ }
        open spec fn ok(cl: ContentLine, v: crate::Text) -> bool { v.text == cl.value && v.params == cl.params }
        open spec fn err(cl: ContentLine) -> bool { false }
    }
}
