// generated by tools/gencomp.py: the parsers of property values
pub mod alarm {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::alarm
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::alarm::action
    //@ ret r
        ensures match r { Ok(v) => P_action::ok(input, v), Err(_) => P_action::err(input) }
    //@ end
    //@ fn crate::parser::alarm::repeat
    //@ ret r
        ensures match r { Ok(v) => P_repeat::ok(input, v), Err(_) => P_repeat::err(input) }
    //@ end
    //@ fn crate::parser::alarm::trigger
    //@ ret r
        ensures match r { Ok(v) => P_trigger::ok(input, v), Err(_) => P_trigger::err(input) }
    //@ closure 0 |p: (&str, crate::Trigger)| -> (q: crate::Trigger)
            ensures q == p.1
    //@ head
            proof { reveal(crate::spans::span_at); reveal(crate::spans::no_span); }
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use alarm::*;
pub mod change {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::change
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::change::created
    //@ ret r
        ensures match r { Ok(v) => P_created::ok(input, v), Err(_) => P_created::err(input) }
    //@ closure 0 |p: (&str, crate::DateTime)| -> (q: crate::DateTime)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::change::dtstamp
    //@ ret r
        ensures match r { Ok(v) => P_dtstamp::ok(input, v), Err(_) => P_dtstamp::err(input) }
    //@ closure 0 |p: (&str, crate::DateTime)| -> (q: crate::DateTime)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::change::last_modified
    //@ ret r
        ensures match r { Ok(v) => P_last_modified::ok(input, v), Err(_) => P_last_modified::err(input) }
    //@ closure 0 |p: (&str, crate::DateTime)| -> (q: crate::DateTime)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::change::sequence
    //@ ret r
        ensures match r { Ok(v) => P_sequence::ok(input, v), Err(_) => P_sequence::err(input) }
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use change::*;
pub mod datetime {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::datetime
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::datetime::completed
    //@ ret r
        ensures match r { Ok(v) => P_completed::ok(input, v), Err(_) => P_completed::err(input) }
    //@ closure 0 |p: (&str, crate::DateTime)| -> (q: crate::DateTime)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::datetime::dtend
    //@ ret r
        ensures match r { Ok(v) => P_dtend::ok(input, v), Err(_) => P_dtend::err(input) }
    //@ closure 0 |p: (&str, crate::Date)| -> (q: crate::Date)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::datetime::due
    //@ ret r
        ensures match r { Ok(v) => P_due::ok(input, v), Err(_) => P_due::err(input) }
    //@ closure 0 |p: (&str, crate::Date)| -> (q: crate::Date)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::datetime::dtstart
    //@ ret r
        ensures match r { Ok(v) => P_dtstart::ok(input, v), Err(_) => P_dtstart::err(input) }
    //@ closure 0 |p: (&str, crate::Date)| -> (q: crate::Date)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::datetime::duration
    //@ ret r
        ensures match r { Ok(v) => P_duration::ok(input, v), Err(_) => P_duration::err(input) }
    //@ closure 0 |p: (&str, crate::chrono::TimeDelta)| -> (q: crate::chrono::TimeDelta)
            ensures q == p.1
    //@ head
            proof { reveal(crate::spans::span_at); reveal(crate::spans::no_span); }
    //@ end
    //@ fn crate::parser::datetime::freebusy
    //@ ret r
        ensures match r { Ok(v) => P_freebusy::ok(input, v), Err(_) => P_freebusy::err(input) }
    //@ head
            proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma()); }
    //@ end
    //@ fn crate::parser::datetime::transp
    //@ ret r
        ensures match r { Ok(v) => P_transp::ok(input, v), Err(_) => P_transp::err(input) }
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use datetime::*;
pub mod descriptive {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::descriptive
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::descriptive::text_list
    //@ ret r
        ensures texts_ok(*input, r@)
    //@ closure 0 |x: &str| -> (q: crate::Text)
            ensures q.text@ == x@, q.params == input.params
    //@ head
            proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma()); }
    //@ end
    //@ fn crate::parser::descriptive::attach
    //@ ret r
        ensures match r { Ok(v) => P_attach::ok(input, v), Err(_) => P_attach::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::comment
    //@ ret r
        ensures match r { Ok(v) => P_comment::ok(input, v), Err(_) => P_comment::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::location
    //@ ret r
        ensures match r { Ok(v) => P_location::ok(input, v), Err(_) => P_location::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::summary
    //@ ret r
        ensures match r { Ok(v) => P_summary::ok(input, v), Err(_) => P_summary::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::description
    //@ ret r
        ensures match r { Ok(v) => P_description::ok(input, v), Err(_) => P_description::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::categories
    //@ ret r
        ensures match r { Ok(v) => P_categories::ok(input, v), Err(_) => P_categories::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::resources
    //@ ret r
        ensures match r { Ok(v) => P_resources::ok(input, v), Err(_) => P_resources::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::percent_complete
    //@ ret r
        ensures match r { Ok(v) => P_percent_complete::ok(input, v), Err(_) => P_percent_complete::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::class
    //@ ret r
        ensures match r { Ok(v) => P_class::ok(input, v), Err(_) => P_class::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::status
    //@ ret r
        ensures match r { Ok(v) => P_status::ok(input, v), Err(_) => P_status::err(input) }
    //@ end
    //@ fn crate::parser::descriptive::geo
    //@ ret r
        ensures match r { Ok(v) => P_geo::ok(input, v), Err(_) => P_geo::err(input) }
    //@ closure 0 |p: (f32, f32)| -> (q: crate::Geo)
            ensures q.lat == p.0, q.lon == p.1
    //@ closure 1 |p: (&str, crate::Geo)| -> (q: crate::Geo)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::descriptive::priority
    //@ ret r
        ensures match r { Ok(v) => P_priority::ok(input, v), Err(_) => P_priority::err(input) }
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use descriptive::*;
pub mod misc {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::misc
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::misc::rstatus::text
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == crate::grammar::front(crate::grammar::Cls::Item, input@), r->Ok_0.0@ == crate::grammar::back(crate::grammar::Cls::Item, input@)
    //@ closure 0 |c: char| -> (b: bool)
            ensures b == (c == ';')
    //@ tail
        proof { crate::grammar::lemma_run_is(crate::grammar::Cls::Item, input@, vx_r->Ok_0.1@.len() as int); }
    //@ end
    //@ fn crate::parser::misc::rstatus::end
    //@ ret r
        ensures r is Ok, r->Ok_0.1@ == input@
    //@ closure 0 |c: char| -> (b: bool)
            ensures b
    //@ tail
        proof { assert(vx_r->Ok_0.1@ =~= input@); }
    //@ end
    //@ fn crate::parser::misc::rstatus
    //@ ret r
        ensures match r { Ok(v) => P_rstatus::ok(input, v), Err(_) => P_rstatus::err(input) }
    //@ closure 0 |p: (f32, char, String, Option<String>)| -> (q: crate::RequestStatus)
            ensures q.statcode == p.0, q.statdesc == p.2, q.extdata == p.3
    //@ closure 1 |p: (&str, crate::RequestStatus)| -> (q: crate::RequestStatus)
            ensures q == p.1
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use misc::*;
pub mod recurrence {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::recurrence
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::recurrence::exdate
    //@ ret r
        ensures match r { Ok(v) => P_exdate::ok(input, v), Err(_) => P_exdate::err(input) }
    //@ closure 0 |x: &str| -> (q: crate::Result<crate::Date>)
            ensures match q { Ok(v) => dodt_ok(x@, v), Err(_) => dodt_err(x@) }
    //@ closure 1 |y: (&str, crate::Date)| -> (q: crate::Date)
            ensures q == y.1
    //@ head
            proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma()); }
    //@ end
    //@ fn crate::parser::recurrence::rdate
    //@ ret r
        ensures match r { Ok(v) => P_rdate::ok(input, v), Err(_) => P_rdate::err(input) }
    //@ closure 0 |x: &str| -> (q: crate::Result<crate::Date>)
            ensures match q { Ok(v) => dodt_ok(x@, v), Err(_) => dodt_err(x@) }
    //@ closure 1 |y: (&str, crate::Date)| -> (q: crate::Date)
            ensures q == y.1
    //@ head
            proof { assert(crate::xstd::strings::VxPat::pat(&',') == comma()); crate::xstd::lemma_string_eq(); }
    //@ end
    //@ fn crate::parser::recurrence::rrule
    //@ ret r
        ensures match r { Ok(v) => P_rrule::ok(input, v), Err(_) => P_rrule::err(input) }
    //@ by rules
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use recurrence::*;
pub mod relationship {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::relationship
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::relationship::attendee
    //@ ret r
        ensures match r { Ok(v) => P_attendee::ok(input, v), Err(_) => P_attendee::err(input) }
    //@ end
    //@ fn crate::parser::relationship::contact
    //@ ret r
        ensures match r { Ok(v) => P_contact::ok(input, v), Err(_) => P_contact::err(input) }
    //@ end
    //@ fn crate::parser::relationship::organizer
    //@ ret r
        ensures match r { Ok(v) => P_organizer::ok(input, v), Err(_) => P_organizer::err(input) }
    //@ end
    //@ fn crate::parser::relationship::recurid
    //@ ret r
        ensures match r { Ok(v) => P_recurid::ok(input, v), Err(_) => P_recurid::err(input) }
    //@ closure 0 |p: (&str, crate::Date)| -> (q: crate::Date)
            ensures q == p.1
    //@ end
    //@ fn crate::parser::relationship::related_to
    //@ ret r
        ensures match r { Ok(v) => P_related_to::ok(input, v), Err(_) => P_related_to::err(input) }
    //@ end
    //@ fn crate::parser::relationship::url
    //@ ret r
        ensures match r { Ok(v) => P_url::ok(input, v), Err(_) => P_url::err(input) }
    //@ end
    //@ fn crate::parser::relationship::uid
    //@ ret r
        ensures match r { Ok(v) => P_uid::ok(input, v), Err(_) => P_uid::err(input) }
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use relationship::*;
pub mod timezone {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::timezone
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::timezone::tzid
    //@ ret r
        ensures match r { Ok(v) => P_tzid::ok(input, v), Err(_) => P_tzid::err(input) }
    //@ end
    //@ fn crate::parser::timezone::tzname
    //@ ret r
        ensures match r { Ok(v) => P_tzname::ok(input, v), Err(_) => P_tzname::err(input) }
    //@ end
    //@ fn crate::parser::timezone::tzurl
    //@ ret r
        ensures match r { Ok(v) => P_tzurl::ok(input, v), Err(_) => P_tzurl::err(input) }
    //@ end
    //@ fn crate::parser::timezone::tzoffsetfrom
    //@ ret r
        ensures match r { Ok(v) => P_tzoffsetfrom::ok(input, v), Err(_) => P_tzoffsetfrom::err(input) }
    //@ end
    //@ fn crate::parser::timezone::tzoffsetto
    //@ ret r
        ensures match r { Ok(v) => P_tzoffsetto::ok(input, v), Err(_) => P_tzoffsetto::err(input) }
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use timezone::*;
pub mod properties {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::prop::*;
    use crate::parser::datatype::*;
    use vstd::std_specs::convert::*;
    //@ uses crate::parser::properties
    broadcast use {crate::xstd::ax_str_ext, crate::xstd::num::lemma_int_text};
    //@ rename split vx_split
    //@ props C06,C11
    //@ fn crate::parser::properties::calscale
    //@ ret r
        ensures match r { Ok(v) => P_calscale::ok(input, v), Err(_) => P_calscale::err(input) }
    //@ end
    //@ fn crate::parser::properties::method
    //@ ret r
        ensures match r { Ok(v) => P_method::ok(input, v), Err(_) => P_method::err(input) }
    //@ end
    //@ fn crate::parser::properties::prodid
    //@ ret r
        ensures match r { Ok(v) => P_prodid::ok(input, v), Err(_) => P_prodid::err(input) }
    //@ end
    //@ fn crate::parser::properties::version
    //@ ret r
        ensures match r { Ok(v) => P_version::ok(input, v), Err(_) => P_version::err(input) }
    //@ end
    //@ norename split
    //@ props
}
pub(crate) use properties::*;
