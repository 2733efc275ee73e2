    // generated by tools/gennest.py: the component parsers
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::grammar::*;
    use crate::glue::*;
    use crate::nest::*;
    use crate::components::*;
    use crate::components::Component;
    use crate::components::vtimezone::{Component as Part, Standard, Daylight, VTimezone};
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::ContentLine;
    //@ uses crate::parser::components
    broadcast use {crate::xstd::ax_str_ext, crate::grammar::lemma_g_lines_len, crate::nest::group_kinds};
    //@ props C04,C11
    //@ fn crate::parser::components::vfreebusy
    //@ ret r
        ensures match r { Ok((t, v)) => VFreebusy::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && VFreebusy::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<VFreebusy, crate::Error>)
            ensures match q { Ok(v) => VFreebusy::read(values@, values@.len(), v), Err(_) => VFreebusy::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("vfreebusy"@);
            reveal_strlit("vfreebusy"); reveal_strlit("VFREEBUSY");
            assert(crate::xstd::uppercase("vfreebusy"@) =~= "VFREEBUSY"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<VFreebusy as Piece>::at); reveal(<VFreebusy as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::vtodo
    //@ ret r
        ensures match r { Ok((t, v)) => VTodo::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && VTodo::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<VTodo, crate::Error>)
            ensures match q { Ok(v) => VTodo::read(values@, values@.len(), v), Err(_) => VTodo::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("vtodo"@);
            reveal_strlit("vtodo"); reveal_strlit("VTODO");
            assert(crate::xstd::uppercase("vtodo"@) =~= "VTODO"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<VTodo as Piece>::at); reveal(<VTodo as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::vjournal
    //@ ret r
        ensures match r { Ok((t, v)) => VJournal::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && VJournal::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<VJournal, crate::Error>)
            ensures match q { Ok(v) => VJournal::read(values@, values@.len(), v), Err(_) => VJournal::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("vjournal"@);
            reveal_strlit("vjournal"); reveal_strlit("VJOURNAL");
            assert(crate::xstd::uppercase("vjournal"@) =~= "VJOURNAL"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<VJournal as Piece>::at); reveal(<VJournal as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::standard
    //@ ret r
        ensures match r { Ok((t, v)) => Standard::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && Standard::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<Standard, crate::Error>)
            ensures match q { Ok(v) => Standard::read(values@, values@.len(), v), Err(_) => Standard::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("standard"@);
            reveal_strlit("standard"); reveal_strlit("STANDARD");
            assert(crate::xstd::uppercase("standard"@) =~= "STANDARD"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<Standard as Piece>::at); reveal(<Standard as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::daylight
    //@ ret r
        ensures match r { Ok((t, v)) => Daylight::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && Daylight::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<Daylight, crate::Error>)
            ensures match q { Ok(v) => Daylight::read(values@, values@.len(), v), Err(_) => Daylight::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("daylight"@);
            reveal_strlit("daylight"); reveal_strlit("DAYLIGHT");
            assert(crate::xstd::uppercase("daylight"@) =~= "DAYLIGHT"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<Daylight as Piece>::at); reveal(<Daylight as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::audio
    //@ ret r
        ensures match r { Ok((t, v)) => Audio::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && Audio::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<Audio, crate::Error>)
            ensures match q { Ok(v) => Audio::read(values@, values@.len(), v), Err(_) => Audio::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("audio"@);
            reveal_strlit("audio"); reveal_strlit("AUDIO");
            assert(crate::xstd::uppercase("audio"@) =~= "AUDIO"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<Audio as Piece>::at); reveal(<Audio as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::display
    //@ ret r
        ensures match r { Ok((t, v)) => Display::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && Display::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<Display, crate::Error>)
            ensures match q { Ok(v) => Display::read(values@, values@.len(), v), Err(_) => Display::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("display"@);
            reveal_strlit("display"); reveal_strlit("DISPLAY");
            assert(crate::xstd::uppercase("display"@) =~= "DISPLAY"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<Display as Piece>::at); reveal(<Display as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::email
    //@ ret r
        ensures match r { Ok((t, v)) => Email::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && Email::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<Email, crate::Error>)
            ensures match q { Ok(v) => Email::read(values@, values@.len(), v), Err(_) => Email::unreadable(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("email"@);
            reveal_strlit("email"); reveal_strlit("EMAIL");
            assert(crate::xstd::uppercase("email"@) =~= "EMAIL"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<Email as Piece>::at); reveal(<Email as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::valarm
    //@ ret r
        ensures match r { Ok((t, v)) => VAlarm::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && VAlarm::none(input@) }
    //@ closure 0 |values: Vec<ContentLine>| -> (q: core::result::Result<VAlarm, crate::Error>)
            ensures match q { Ok(v) => alarm_lines(values@, v), Err(_) => no_alarm_lines(values@) }
    //@ head
        proof {
            crate::xstd::ax_uppercase_ascii("valarm"@);
            reveal_strlit("valarm"); reveal_strlit("VALARM");
            assert(crate::xstd::uppercase("valarm"@) =~= "VALARM"@);
            reveal(block); reveal(blocked); reveal(no_block); reveal(<VAlarm as Piece>::at); reveal(<VAlarm as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::vevent
    //@ ret r
        ensures match r { Ok((t, v)) => VEvent::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && VEvent::none(input@) }
    //@ closure 0 |p: (Vec<ContentLine>, Vec<VAlarm>)| -> (q: core::result::Result<VEvent, crate::Error>)
            ensures match q { Ok(v) => event_of(p.0@, p.1@, v), Err(_) => VEvent::unreadable(p.0@) }
    //@ head
        broadcast use crate::nest::group_nest;
        proof {
            reveal_strlit("VEVENT"); reveal_strlit("BEGIN:"); reveal_strlit("END:"); reveal_strlit("\r\n");
            assert("BEGIN:VEVENT\r\n"@ =~= opens("VEVENT"@));
            assert("END:VEVENT\r\n"@ =~= closes("VEVENT"@));
            reveal(nested); reveal(nests); reveal(no_nested); reveal(<VEvent as Piece>::at); reveal(<VEvent as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::vtimezone
    //@ ret r
        ensures match r { Ok((t, v)) => VTimezone::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && VTimezone::none(input@) }
    //@ closure 0 |p: (Vec<ContentLine>, Vec<Part>)| -> (q: core::result::Result<VTimezone, crate::Error>)
            ensures match q { Ok(v) => timezone_of(p.0@, p.1@, v), Err(_) => VTimezone::unreadable(p.0@) }
    //@ loop 0 it
            invariant it.seq() == p.1@, VTimezone::read(p.0@, p.0@.len(), e), vtimezone == (VTimezone { standard: vtimezone.standard, daylight: vtimezone.daylight, ..e }), vtimezone.standard@ == standards(p.1@.take(it.index@)), vtimezone.daylight@ == daylights(p.1@.take(it.index@))
    //@ before for component in components
            let ghost e = vtimezone;
            proof { assert(p.1@.take(0) =~= Seq::empty()); }
    //@ before Ok::<_, crate::Error>(vtimezone)
            proof { assert(p.1@.take(p.1@.len() as int) =~= p.1@); }
    //@ head
        broadcast use crate::nest::group_nest;
        proof {
            reveal_strlit("VTIMEZONE"); reveal_strlit("BEGIN:"); reveal_strlit("END:"); reveal_strlit("\r\n");
            assert("BEGIN:VTIMEZONE\r\n"@ =~= opens("VTIMEZONE"@));
            reveal(<Part as Piece>::at); reveal(<Part as Piece>::none);
            assert("END:VTIMEZONE\r\n"@ =~= closes("VTIMEZONE"@));
            reveal(nested); reveal(nests); reveal(no_nested); reveal(<VTimezone as Piece>::at); reveal(<VTimezone as Piece>::none);
        }
    //@ end
    //@ fn crate::parser::components::component
    //@ ret r
        ensures match r { Ok((t, v)) => Component::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && Component::none(input@) }
    //@ head
        proof { reveal(<Component as Piece>::at); reveal(<Component as Piece>::none); }
    //@ end
    //@ fn crate::parser::components::components
    //@ ret r
        ensures r is Ok, repeated(input@, r->Ok_0.0@, r->Ok_0.1@), Component::none(r->Ok_0.0@), r->Ok_0.0@.len() <= input@.len()
    //@ head
        broadcast use crate::nest::group_nest;
    //@ end
    //@ fn crate::parser::components::vcalendar
    //@ ret r
        ensures match r { Ok((t, v)) => VCalendar::at(input@, t@, v) && t@.len() < input@.len(), Err(e) => e is Error && VCalendar::none(input@) }
    //@ closure 0 |p: (Vec<ContentLine>, Vec<Component>)| -> (q: core::result::Result<VCalendar, crate::nom_language::error::VerboseError<&str>>)
            ensures match q { Ok(v) => calendar_of(p.0@, p.1@, v), Err(_) => VCalendar::unreadable(p.0@) }
    //@ closure 1 |e: crate::Error| -> (q: crate::nom_language::error::VerboseError<&str>)
    //@ loop 0 it
            invariant it.seq() == p.1@, VCalendar::read(p.0@, p.0@.len(), e), vcalendar == (VCalendar { alarms: vcalendar.alarms, events: vcalendar.events, freebusy: vcalendar.freebusy, journals: vcalendar.journals, todo: vcalendar.todo, timezones: vcalendar.timezones, ..e }), vcalendar.alarms@ == its_alarms(p.1@.take(it.index@)), vcalendar.events@ == its_events(p.1@.take(it.index@)), vcalendar.freebusy@ == its_freebusy(p.1@.take(it.index@)), vcalendar.journals@ == its_journals(p.1@.take(it.index@)), vcalendar.todo@ == its_todo(p.1@.take(it.index@)), vcalendar.timezones@ == its_timezones(p.1@.take(it.index@))
    //@ before for component in components
            let ghost e = vcalendar;
            proof { assert(p.1@.take(0) =~= Seq::empty()); }
    //@ before Ok::<_, nom_language::error::VerboseError<&str>>(vcalendar)
            proof { assert(p.1@.take(p.1@.len() as int) =~= p.1@); }
    //@ head
        broadcast use crate::nest::group_nest;
        proof {
            reveal_strlit("VCALENDAR"); reveal_strlit("BEGIN:"); reveal_strlit("END:"); reveal_strlit("\r\n");
            assert("BEGIN:VCALENDAR\r\n"@ =~= opens("VCALENDAR"@));
            reveal(nested); reveal(nests); reveal(no_nested); reveal(<VCalendar as Piece>::at); reveal(<VCalendar as Piece>::none);
        }
    //@ end
