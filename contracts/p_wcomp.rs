// generated by tools/gencomp.py
pub mod w_vcalendar {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl VCalendar {
        proof fn lemma_name() ensures "VCALENDAR"@.len() == 9 { reveal_strlit("VCALENDAR"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "VCALENDAR"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("PRODID"@, self.prodid)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("VERSION"@, self.version)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("CALSCALE"@, self.calscale)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("METHOD"@, self.method)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { map_from(self.l4(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { map_from(self.l5(), self.iana_prop@, self.iana_prop@.len()) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { each_from(self.l6(), "ALARMS"@, self.alarms@, self.alarms@.len()) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { each_from(self.l7(), "EVENTS"@, self.events@, self.events@.len()) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { each_from(self.l8(), "FREEBUSY"@, self.freebusy@, self.freebusy@.len()) }
        pub open spec fn l10(&self) -> Seq<Seq<char>> { each_from(self.l9(), "JOURNALS"@, self.journals@, self.journals@.len()) }
        pub open spec fn l11(&self) -> Seq<Seq<char>> { each_from(self.l10(), "TODO"@, self.todo@, self.todo@.len()) }
        pub open spec fn l12(&self) -> Seq<Seq<char>> { each_from(self.l11(), "TIMEZONES"@, self.timezones@, self.timezones@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "VCALENDAR"@, self.lines().last() == "END:"@ + "VCALENDAR"@
        { reveal(app); let b = "BEGIN:"@ + "VCALENDAR"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("PRODID"@, self.prodid), b);
            lemma_heads_app(self.l1(), field_lines("VERSION"@, self.version), b);
            lemma_heads_app(self.l2(), field_lines("CALSCALE"@, self.calscale), b);
            lemma_heads_app(self.l3(), field_lines("METHOD"@, self.method), b);
            lemma_heads_map(self.l4(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l5(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_each(self.l6(), "ALARMS"@, self.alarms@, self.alarms@.len(), b);
            lemma_heads_each(self.l7(), "EVENTS"@, self.events@, self.events@.len(), b);
            lemma_heads_each(self.l8(), "FREEBUSY"@, self.freebusy@, self.freebusy@.len(), b);
            lemma_heads_each(self.l9(), "JOURNALS"@, self.journals@, self.journals@.len(), b);
            lemma_heads_each(self.l10(), "TODO"@, self.todo@, self.todo@.len(), b);
            lemma_heads_each(self.l11(), "TIMEZONES"@, self.timezones@, self.timezones@.len(), b);
            lemma_heads_app(self.l12(), seq!["END:"@ + "VCALENDAR"@], b); }
    }
    //@ impl crate::components::vcalendar | Serialize for VCalendar
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("VCALENDAR"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l12(), seq!["END:"@ + "VCALENDAR"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("VCalendar"); reveal_strlit("VCALENDAR"); ax_uppercase_ascii("VCalendar"@); assert(uppercase("VCalendar"@) =~= "VCALENDAR"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); VCalendar::lemma_name(); }
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 0 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l4(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 1 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l5(), self.iana_prop@, it.index@ as nat))
    //@ closure 0 |x: &crate::VAlarm| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.alarms@.len(), forall|k: int| 0 <= k < self.alarms@.len() ==> *(#[trigger] it.seq()[k]) == self.alarms@[k],
                writes(s@, each_from(self.l6(), "ALARMS"@, self.alarms@, it.index@ as nat))
    //@ closure 1 |x: &crate::VEvent| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 3 it
            invariant it.seq().len() == self.events@.len(), forall|k: int| 0 <= k < self.events@.len() ==> *(#[trigger] it.seq()[k]) == self.events@[k],
                writes(s@, each_from(self.l7(), "EVENTS"@, self.events@, it.index@ as nat))
    //@ closure 2 |x: &crate::VFreebusy| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 4 it
            invariant it.seq().len() == self.freebusy@.len(), forall|k: int| 0 <= k < self.freebusy@.len() ==> *(#[trigger] it.seq()[k]) == self.freebusy@[k],
                writes(s@, each_from(self.l8(), "FREEBUSY"@, self.freebusy@, it.index@ as nat))
    //@ closure 3 |x: &crate::VJournal| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 5 it
            invariant it.seq().len() == self.journals@.len(), forall|k: int| 0 <= k < self.journals@.len() ==> *(#[trigger] it.seq()[k]) == self.journals@[k],
                writes(s@, each_from(self.l9(), "JOURNALS"@, self.journals@, it.index@ as nat))
    //@ closure 4 |x: &crate::VTodo| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 6 it
            invariant it.seq().len() == self.todo@.len(), forall|k: int| 0 <= k < self.todo@.len() ==> *(#[trigger] it.seq()[k]) == self.todo@[k],
                writes(s@, each_from(self.l10(), "TODO"@, self.todo@, it.index@ as nat))
    //@ closure 5 |x: &crate::VTimezone| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 7 it
            invariant it.seq().len() == self.timezones@.len(), forall|k: int| 0 <= k < self.timezones@.len() ==> *(#[trigger] it.seq()[k]) == self.timezones@[k],
                writes(s@, each_from(self.l11(), "TIMEZONES"@, self.timezones@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_vevent {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl VEvent {
        proof fn lemma_name() ensures "VEVENT"@.len() == 6 { reveal_strlit("VEVENT"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "VEVENT"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("UID"@, self.uid)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("DTSTART"@, self.dtstart)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("CLASS"@, self.class)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { app(self.l4(), field_lines("CREATED"@, self.created)) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { app(self.l5(), field_lines("DESCRIPTION"@, self.description)) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { app(self.l6(), field_lines("GEO"@, self.geo)) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { app(self.l7(), field_lines("LAST-MODIFIED"@, self.last_modified)) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { app(self.l8(), field_lines("LOCATION"@, self.location)) }
        pub open spec fn l10(&self) -> Seq<Seq<char>> { app(self.l9(), field_lines("ORGANIZER"@, self.organizer)) }
        pub open spec fn l11(&self) -> Seq<Seq<char>> { app(self.l10(), field_lines("PRIORITY"@, self.priority)) }
        pub open spec fn l12(&self) -> Seq<Seq<char>> { app(self.l11(), field_lines("SEQUENCE"@, self.sequence)) }
        pub open spec fn l13(&self) -> Seq<Seq<char>> { app(self.l12(), field_lines("STATUS"@, self.status)) }
        pub open spec fn l14(&self) -> Seq<Seq<char>> { app(self.l13(), field_lines("SUMMARY"@, self.summary)) }
        pub open spec fn l15(&self) -> Seq<Seq<char>> { app(self.l14(), field_lines("TRANSP"@, self.transp)) }
        pub open spec fn l16(&self) -> Seq<Seq<char>> { app(self.l15(), field_lines("URL"@, self.url)) }
        pub open spec fn l17(&self) -> Seq<Seq<char>> { app(self.l16(), field_lines("RECURID"@, self.recurid)) }
        pub open spec fn l18(&self) -> Seq<Seq<char>> { app(self.l17(), field_lines("RRULE"@, self.rrule)) }
        pub open spec fn l19(&self) -> Seq<Seq<char>> { app(self.l18(), field_lines("DTEND"@, self.dtend)) }
        pub open spec fn l20(&self) -> Seq<Seq<char>> { app(self.l19(), field_lines("DURATION"@, self.duration)) }
        pub open spec fn l21(&self) -> Seq<Seq<char>> { each_from(self.l20(), "ATTACH"@, self.attach@, self.attach@.len()) }
        pub open spec fn l22(&self) -> Seq<Seq<char>> { each_from(self.l21(), "ATTENDEE"@, self.attendee@, self.attendee@.len()) }
        pub open spec fn l23(&self) -> Seq<Seq<char>> { list_from(self.l22(), "CATEGORIES"@, self.categories@) }
        pub open spec fn l24(&self) -> Seq<Seq<char>> { each_from(self.l23(), "COMMENT"@, self.comment@, self.comment@.len()) }
        pub open spec fn l25(&self) -> Seq<Seq<char>> { each_from(self.l24(), "CONTACT"@, self.contact@, self.contact@.len()) }
        pub open spec fn l26(&self) -> Seq<Seq<char>> { list_from(self.l25(), "EXDATE"@, self.exdate@) }
        pub open spec fn l27(&self) -> Seq<Seq<char>> { each_from(self.l26(), "RSTATUS"@, self.rstatus@, self.rstatus@.len()) }
        pub open spec fn l28(&self) -> Seq<Seq<char>> { each_from(self.l27(), "RELATED-TO"@, self.related_to@, self.related_to@.len()) }
        pub open spec fn l29(&self) -> Seq<Seq<char>> { list_from(self.l28(), "RESOURCES"@, self.resources@) }
        pub open spec fn l30(&self) -> Seq<Seq<char>> { each_from(self.l29(), "RDATE"@, self.rdate@, self.rdate@.len()) }
        pub open spec fn l31(&self) -> Seq<Seq<char>> { map_from(self.l30(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l32(&self) -> Seq<Seq<char>> { map_from(self.l31(), self.iana_prop@, self.iana_prop@.len()) }
        pub open spec fn l33(&self) -> Seq<Seq<char>> { each_from(self.l32(), "ALARMS"@, self.alarms@, self.alarms@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "VEVENT"@, self.lines().last() == "END:"@ + "VEVENT"@
        { reveal(app); let b = "BEGIN:"@ + "VEVENT"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp), b);
            lemma_heads_app(self.l1(), field_lines("UID"@, self.uid), b);
            lemma_heads_app(self.l2(), field_lines("DTSTART"@, self.dtstart), b);
            lemma_heads_app(self.l3(), field_lines("CLASS"@, self.class), b);
            lemma_heads_app(self.l4(), field_lines("CREATED"@, self.created), b);
            lemma_heads_app(self.l5(), field_lines("DESCRIPTION"@, self.description), b);
            lemma_heads_app(self.l6(), field_lines("GEO"@, self.geo), b);
            lemma_heads_app(self.l7(), field_lines("LAST-MODIFIED"@, self.last_modified), b);
            lemma_heads_app(self.l8(), field_lines("LOCATION"@, self.location), b);
            lemma_heads_app(self.l9(), field_lines("ORGANIZER"@, self.organizer), b);
            lemma_heads_app(self.l10(), field_lines("PRIORITY"@, self.priority), b);
            lemma_heads_app(self.l11(), field_lines("SEQUENCE"@, self.sequence), b);
            lemma_heads_app(self.l12(), field_lines("STATUS"@, self.status), b);
            lemma_heads_app(self.l13(), field_lines("SUMMARY"@, self.summary), b);
            lemma_heads_app(self.l14(), field_lines("TRANSP"@, self.transp), b);
            lemma_heads_app(self.l15(), field_lines("URL"@, self.url), b);
            lemma_heads_app(self.l16(), field_lines("RECURID"@, self.recurid), b);
            lemma_heads_app(self.l17(), field_lines("RRULE"@, self.rrule), b);
            lemma_heads_app(self.l18(), field_lines("DTEND"@, self.dtend), b);
            lemma_heads_app(self.l19(), field_lines("DURATION"@, self.duration), b);
            lemma_heads_each(self.l20(), "ATTACH"@, self.attach@, self.attach@.len(), b);
            lemma_heads_each(self.l21(), "ATTENDEE"@, self.attendee@, self.attendee@.len(), b);
            lemma_heads_list(self.l22(), "CATEGORIES"@, self.categories@, b);
            lemma_heads_each(self.l23(), "COMMENT"@, self.comment@, self.comment@.len(), b);
            lemma_heads_each(self.l24(), "CONTACT"@, self.contact@, self.contact@.len(), b);
            lemma_heads_list(self.l25(), "EXDATE"@, self.exdate@, b);
            lemma_heads_each(self.l26(), "RSTATUS"@, self.rstatus@, self.rstatus@.len(), b);
            lemma_heads_each(self.l27(), "RELATED-TO"@, self.related_to@, self.related_to@.len(), b);
            lemma_heads_list(self.l28(), "RESOURCES"@, self.resources@, b);
            lemma_heads_each(self.l29(), "RDATE"@, self.rdate@, self.rdate@.len(), b);
            lemma_heads_map(self.l30(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l31(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_each(self.l32(), "ALARMS"@, self.alarms@, self.alarms@.len(), b);
            lemma_heads_app(self.l33(), seq!["END:"@ + "VEVENT"@], b); }
    }
    //@ impl crate::components::vevent | Serialize for VEvent
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("VEVENT"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l33(), seq!["END:"@ + "VEVENT"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("VEvent"); reveal_strlit("VEVENT"); ax_uppercase_ascii("VEvent"@); assert(uppercase("VEvent"@) =~= "VEVENT"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); VEvent::lemma_name(); }
    //@ closure 0 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.attach@.len(), forall|k: int| 0 <= k < self.attach@.len() ==> *(#[trigger] it.seq()[k]) == self.attach@[k],
                writes(s@, each_from(self.l20(), "ATTACH"@, self.attach@, it.index@ as nat))
    //@ closure 1 |x: &crate::Uri| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 1 it
            invariant it.seq().len() == self.attendee@.len(), forall|k: int| 0 <= k < self.attendee@.len() ==> *(#[trigger] it.seq()[k]) == self.attendee@[k],
                writes(s@, each_from(self.l21(), "ATTENDEE"@, self.attendee@, it.index@ as nat))
    //@ closure 2 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.categories@.len(), forall|k: int| 0 <= k < self.categories@.len() ==> *(#[trigger] it.seq()[k]) == self.categories@[k],
                writes(s@, each_from(self.l22(), "CATEGORIES"@, self.categories@, it.index@ as nat))
    //@ closure 3 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 3 it
            invariant it.seq().len() == self.comment@.len(), forall|k: int| 0 <= k < self.comment@.len() ==> *(#[trigger] it.seq()[k]) == self.comment@[k],
                writes(s@, each_from(self.l23(), "COMMENT"@, self.comment@, it.index@ as nat))
    //@ closure 4 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 4 it
            invariant it.seq().len() == self.contact@.len(), forall|k: int| 0 <= k < self.contact@.len() ==> *(#[trigger] it.seq()[k]) == self.contact@[k],
                writes(s@, each_from(self.l24(), "CONTACT"@, self.contact@, it.index@ as nat))
    //@ closure 5 |x: &crate::Date| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 5 it
            invariant it.seq().len() == self.exdate@.len(), forall|k: int| 0 <= k < self.exdate@.len() ==> *(#[trigger] it.seq()[k]) == self.exdate@[k],
                writes(s@, each_from(self.l25(), "EXDATE"@, self.exdate@, it.index@ as nat))
    //@ closure 6 |x: &crate::RequestStatus| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 6 it
            invariant it.seq().len() == self.rstatus@.len(), forall|k: int| 0 <= k < self.rstatus@.len() ==> *(#[trigger] it.seq()[k]) == self.rstatus@[k],
                writes(s@, each_from(self.l26(), "RSTATUS"@, self.rstatus@, it.index@ as nat))
    //@ closure 7 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 7 it
            invariant it.seq().len() == self.related_to@.len(), forall|k: int| 0 <= k < self.related_to@.len() ==> *(#[trigger] it.seq()[k]) == self.related_to@[k],
                writes(s@, each_from(self.l27(), "RELATED-TO"@, self.related_to@, it.index@ as nat))
    //@ closure 8 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 8 it
            invariant it.seq().len() == self.resources@.len(), forall|k: int| 0 <= k < self.resources@.len() ==> *(#[trigger] it.seq()[k]) == self.resources@[k],
                writes(s@, each_from(self.l28(), "RESOURCES"@, self.resources@, it.index@ as nat))
    //@ closure 9 |x: &crate::RDate| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 9 it
            invariant it.seq().len() == self.rdate@.len(), forall|k: int| 0 <= k < self.rdate@.len() ==> *(#[trigger] it.seq()[k]) == self.rdate@[k],
                writes(s@, each_from(self.l29(), "RDATE"@, self.rdate@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 10 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l30(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 11 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l31(), self.iana_prop@, it.index@ as nat))
    //@ closure 10 |x: &crate::VAlarm| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 12 it
            invariant it.seq().len() == self.alarms@.len(), forall|k: int| 0 <= k < self.alarms@.len() ==> *(#[trigger] it.seq()[k]) == self.alarms@[k],
                writes(s@, each_from(self.l32(), "ALARMS"@, self.alarms@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_vfreebusy {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl VFreebusy {
        proof fn lemma_name() ensures "VFREEBUSY"@.len() == 9 { reveal_strlit("VFREEBUSY"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "VFREEBUSY"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("UID"@, self.uid)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("CONTACT"@, self.contact)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("DTSTART"@, self.dtstart)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { app(self.l4(), field_lines("DTEND"@, self.dtend)) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { app(self.l5(), field_lines("ORGANIZER"@, self.organizer)) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { app(self.l6(), field_lines("URL"@, self.url)) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { each_from(self.l7(), "ATTENDEE"@, self.attendee@, self.attendee@.len()) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { each_from(self.l8(), "COMMENT"@, self.comment@, self.comment@.len()) }
        pub open spec fn l10(&self) -> Seq<Seq<char>> { list_from(self.l9(), "FREEBUSY"@, self.freebusy@) }
        pub open spec fn l11(&self) -> Seq<Seq<char>> { each_from(self.l10(), "RSTATUS"@, self.rstatus@, self.rstatus@.len()) }
        pub open spec fn l12(&self) -> Seq<Seq<char>> { map_from(self.l11(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l13(&self) -> Seq<Seq<char>> { map_from(self.l12(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "VFREEBUSY"@, self.lines().last() == "END:"@ + "VFREEBUSY"@
        { reveal(app); let b = "BEGIN:"@ + "VFREEBUSY"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp), b);
            lemma_heads_app(self.l1(), field_lines("UID"@, self.uid), b);
            lemma_heads_app(self.l2(), field_lines("CONTACT"@, self.contact), b);
            lemma_heads_app(self.l3(), field_lines("DTSTART"@, self.dtstart), b);
            lemma_heads_app(self.l4(), field_lines("DTEND"@, self.dtend), b);
            lemma_heads_app(self.l5(), field_lines("ORGANIZER"@, self.organizer), b);
            lemma_heads_app(self.l6(), field_lines("URL"@, self.url), b);
            lemma_heads_each(self.l7(), "ATTENDEE"@, self.attendee@, self.attendee@.len(), b);
            lemma_heads_each(self.l8(), "COMMENT"@, self.comment@, self.comment@.len(), b);
            lemma_heads_list(self.l9(), "FREEBUSY"@, self.freebusy@, b);
            lemma_heads_each(self.l10(), "RSTATUS"@, self.rstatus@, self.rstatus@.len(), b);
            lemma_heads_map(self.l11(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l12(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l13(), seq!["END:"@ + "VFREEBUSY"@], b); }
    }
    //@ impl crate::components::vfreebusy | Serialize for VFreebusy
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("VFREEBUSY"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l13(), seq!["END:"@ + "VFREEBUSY"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("VFreebusy"); reveal_strlit("VFREEBUSY"); ax_uppercase_ascii("VFreebusy"@); assert(uppercase("VFreebusy"@) =~= "VFREEBUSY"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); VFreebusy::lemma_name(); }
    //@ closure 0 |x: &crate::Uri| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.attendee@.len(), forall|k: int| 0 <= k < self.attendee@.len() ==> *(#[trigger] it.seq()[k]) == self.attendee@[k],
                writes(s@, each_from(self.l7(), "ATTENDEE"@, self.attendee@, it.index@ as nat))
    //@ closure 1 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 1 it
            invariant it.seq().len() == self.comment@.len(), forall|k: int| 0 <= k < self.comment@.len() ==> *(#[trigger] it.seq()[k]) == self.comment@[k],
                writes(s@, each_from(self.l8(), "COMMENT"@, self.comment@, it.index@ as nat))
    //@ closure 2 |x: &crate::Period| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.freebusy@.len(), forall|k: int| 0 <= k < self.freebusy@.len() ==> *(#[trigger] it.seq()[k]) == self.freebusy@[k],
                writes(s@, each_from(self.l9(), "FREEBUSY"@, self.freebusy@, it.index@ as nat))
    //@ closure 3 |x: &crate::RequestStatus| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 3 it
            invariant it.seq().len() == self.rstatus@.len(), forall|k: int| 0 <= k < self.rstatus@.len() ==> *(#[trigger] it.seq()[k]) == self.rstatus@[k],
                writes(s@, each_from(self.l10(), "RSTATUS"@, self.rstatus@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 4 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l11(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 5 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l12(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_vjournal {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl VJournal {
        proof fn lemma_name() ensures "VJOURNAL"@.len() == 8 { reveal_strlit("VJOURNAL"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "VJOURNAL"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("UID"@, self.uid)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("CLASS"@, self.class)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("CREATED"@, self.created)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { app(self.l4(), field_lines("DTSTART"@, self.dtstart)) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { app(self.l5(), field_lines("LAST-MODIFIED"@, self.last_modified)) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { app(self.l6(), field_lines("ORGANIZER"@, self.organizer)) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { app(self.l7(), field_lines("RECURID"@, self.recurid)) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { app(self.l8(), field_lines("SEQUENCE"@, self.sequence)) }
        pub open spec fn l10(&self) -> Seq<Seq<char>> { app(self.l9(), field_lines("STATUS"@, self.status)) }
        pub open spec fn l11(&self) -> Seq<Seq<char>> { app(self.l10(), field_lines("SUMMARY"@, self.summary)) }
        pub open spec fn l12(&self) -> Seq<Seq<char>> { app(self.l11(), field_lines("URL"@, self.url)) }
        pub open spec fn l13(&self) -> Seq<Seq<char>> { app(self.l12(), field_lines("RRULE"@, self.rrule)) }
        pub open spec fn l14(&self) -> Seq<Seq<char>> { each_from(self.l13(), "ATTACH"@, self.attach@, self.attach@.len()) }
        pub open spec fn l15(&self) -> Seq<Seq<char>> { each_from(self.l14(), "ATTENDEE"@, self.attendee@, self.attendee@.len()) }
        pub open spec fn l16(&self) -> Seq<Seq<char>> { list_from(self.l15(), "CATEGORIES"@, self.categories@) }
        pub open spec fn l17(&self) -> Seq<Seq<char>> { each_from(self.l16(), "COMMENT"@, self.comment@, self.comment@.len()) }
        pub open spec fn l18(&self) -> Seq<Seq<char>> { each_from(self.l17(), "CONTACT"@, self.contact@, self.contact@.len()) }
        pub open spec fn l19(&self) -> Seq<Seq<char>> { each_from(self.l18(), "DESCRIPTION"@, self.description@, self.description@.len()) }
        pub open spec fn l20(&self) -> Seq<Seq<char>> { list_from(self.l19(), "EXDATE"@, self.exdate@) }
        pub open spec fn l21(&self) -> Seq<Seq<char>> { each_from(self.l20(), "RELATED-TO"@, self.related_to@, self.related_to@.len()) }
        pub open spec fn l22(&self) -> Seq<Seq<char>> { each_from(self.l21(), "RDATE"@, self.rdate@, self.rdate@.len()) }
        pub open spec fn l23(&self) -> Seq<Seq<char>> { each_from(self.l22(), "RSTATUS"@, self.rstatus@, self.rstatus@.len()) }
        pub open spec fn l24(&self) -> Seq<Seq<char>> { map_from(self.l23(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l25(&self) -> Seq<Seq<char>> { map_from(self.l24(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "VJOURNAL"@, self.lines().last() == "END:"@ + "VJOURNAL"@
        { reveal(app); let b = "BEGIN:"@ + "VJOURNAL"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp), b);
            lemma_heads_app(self.l1(), field_lines("UID"@, self.uid), b);
            lemma_heads_app(self.l2(), field_lines("CLASS"@, self.class), b);
            lemma_heads_app(self.l3(), field_lines("CREATED"@, self.created), b);
            lemma_heads_app(self.l4(), field_lines("DTSTART"@, self.dtstart), b);
            lemma_heads_app(self.l5(), field_lines("LAST-MODIFIED"@, self.last_modified), b);
            lemma_heads_app(self.l6(), field_lines("ORGANIZER"@, self.organizer), b);
            lemma_heads_app(self.l7(), field_lines("RECURID"@, self.recurid), b);
            lemma_heads_app(self.l8(), field_lines("SEQUENCE"@, self.sequence), b);
            lemma_heads_app(self.l9(), field_lines("STATUS"@, self.status), b);
            lemma_heads_app(self.l10(), field_lines("SUMMARY"@, self.summary), b);
            lemma_heads_app(self.l11(), field_lines("URL"@, self.url), b);
            lemma_heads_app(self.l12(), field_lines("RRULE"@, self.rrule), b);
            lemma_heads_each(self.l13(), "ATTACH"@, self.attach@, self.attach@.len(), b);
            lemma_heads_each(self.l14(), "ATTENDEE"@, self.attendee@, self.attendee@.len(), b);
            lemma_heads_list(self.l15(), "CATEGORIES"@, self.categories@, b);
            lemma_heads_each(self.l16(), "COMMENT"@, self.comment@, self.comment@.len(), b);
            lemma_heads_each(self.l17(), "CONTACT"@, self.contact@, self.contact@.len(), b);
            lemma_heads_each(self.l18(), "DESCRIPTION"@, self.description@, self.description@.len(), b);
            lemma_heads_list(self.l19(), "EXDATE"@, self.exdate@, b);
            lemma_heads_each(self.l20(), "RELATED-TO"@, self.related_to@, self.related_to@.len(), b);
            lemma_heads_each(self.l21(), "RDATE"@, self.rdate@, self.rdate@.len(), b);
            lemma_heads_each(self.l22(), "RSTATUS"@, self.rstatus@, self.rstatus@.len(), b);
            lemma_heads_map(self.l23(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l24(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l25(), seq!["END:"@ + "VJOURNAL"@], b); }
    }
    //@ impl crate::components::vjournal | Serialize for VJournal
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("VJOURNAL"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l25(), seq!["END:"@ + "VJOURNAL"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("VJournal"); reveal_strlit("VJOURNAL"); ax_uppercase_ascii("VJournal"@); assert(uppercase("VJournal"@) =~= "VJOURNAL"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); VJournal::lemma_name(); }
    //@ closure 0 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.attach@.len(), forall|k: int| 0 <= k < self.attach@.len() ==> *(#[trigger] it.seq()[k]) == self.attach@[k],
                writes(s@, each_from(self.l13(), "ATTACH"@, self.attach@, it.index@ as nat))
    //@ closure 1 |x: &crate::Uri| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 1 it
            invariant it.seq().len() == self.attendee@.len(), forall|k: int| 0 <= k < self.attendee@.len() ==> *(#[trigger] it.seq()[k]) == self.attendee@[k],
                writes(s@, each_from(self.l14(), "ATTENDEE"@, self.attendee@, it.index@ as nat))
    //@ closure 2 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.categories@.len(), forall|k: int| 0 <= k < self.categories@.len() ==> *(#[trigger] it.seq()[k]) == self.categories@[k],
                writes(s@, each_from(self.l15(), "CATEGORIES"@, self.categories@, it.index@ as nat))
    //@ closure 3 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 3 it
            invariant it.seq().len() == self.comment@.len(), forall|k: int| 0 <= k < self.comment@.len() ==> *(#[trigger] it.seq()[k]) == self.comment@[k],
                writes(s@, each_from(self.l16(), "COMMENT"@, self.comment@, it.index@ as nat))
    //@ closure 4 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 4 it
            invariant it.seq().len() == self.contact@.len(), forall|k: int| 0 <= k < self.contact@.len() ==> *(#[trigger] it.seq()[k]) == self.contact@[k],
                writes(s@, each_from(self.l17(), "CONTACT"@, self.contact@, it.index@ as nat))
    //@ closure 5 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 5 it
            invariant it.seq().len() == self.description@.len(), forall|k: int| 0 <= k < self.description@.len() ==> *(#[trigger] it.seq()[k]) == self.description@[k],
                writes(s@, each_from(self.l18(), "DESCRIPTION"@, self.description@, it.index@ as nat))
    //@ closure 6 |x: &crate::Date| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 6 it
            invariant it.seq().len() == self.exdate@.len(), forall|k: int| 0 <= k < self.exdate@.len() ==> *(#[trigger] it.seq()[k]) == self.exdate@[k],
                writes(s@, each_from(self.l19(), "EXDATE"@, self.exdate@, it.index@ as nat))
    //@ closure 7 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 7 it
            invariant it.seq().len() == self.related_to@.len(), forall|k: int| 0 <= k < self.related_to@.len() ==> *(#[trigger] it.seq()[k]) == self.related_to@[k],
                writes(s@, each_from(self.l20(), "RELATED-TO"@, self.related_to@, it.index@ as nat))
    //@ closure 8 |x: &crate::RDate| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 8 it
            invariant it.seq().len() == self.rdate@.len(), forall|k: int| 0 <= k < self.rdate@.len() ==> *(#[trigger] it.seq()[k]) == self.rdate@[k],
                writes(s@, each_from(self.l21(), "RDATE"@, self.rdate@, it.index@ as nat))
    //@ closure 9 |x: &crate::RequestStatus| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 9 it
            invariant it.seq().len() == self.rstatus@.len(), forall|k: int| 0 <= k < self.rstatus@.len() ==> *(#[trigger] it.seq()[k]) == self.rstatus@[k],
                writes(s@, each_from(self.l22(), "RSTATUS"@, self.rstatus@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 10 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l23(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 11 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l24(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_vtodo {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl VTodo {
        proof fn lemma_name() ensures "VTODO"@.len() == 5 { reveal_strlit("VTODO"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "VTODO"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("UID"@, self.uid)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("CLASS"@, self.class)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("COMPLETED"@, self.completed)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { app(self.l4(), field_lines("CREATED"@, self.created)) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { app(self.l5(), field_lines("DTSTART"@, self.dtstart)) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { app(self.l6(), field_lines("GEO"@, self.geo)) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { app(self.l7(), field_lines("LAST-MODIFIED"@, self.last_modified)) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { app(self.l8(), field_lines("LOCATION"@, self.location)) }
        pub open spec fn l10(&self) -> Seq<Seq<char>> { app(self.l9(), field_lines("ORGANIZER"@, self.organizer)) }
        pub open spec fn l11(&self) -> Seq<Seq<char>> { app(self.l10(), field_lines("PERCENT-COMPLETE"@, self.percent_complete)) }
        pub open spec fn l12(&self) -> Seq<Seq<char>> { app(self.l11(), field_lines("PRIORITY"@, self.priority)) }
        pub open spec fn l13(&self) -> Seq<Seq<char>> { app(self.l12(), field_lines("RECURID"@, self.recurid)) }
        pub open spec fn l14(&self) -> Seq<Seq<char>> { app(self.l13(), field_lines("SEQUENCE"@, self.sequence)) }
        pub open spec fn l15(&self) -> Seq<Seq<char>> { app(self.l14(), field_lines("STATUS"@, self.status)) }
        pub open spec fn l16(&self) -> Seq<Seq<char>> { app(self.l15(), field_lines("SUMMARY"@, self.summary)) }
        pub open spec fn l17(&self) -> Seq<Seq<char>> { app(self.l16(), field_lines("URL"@, self.url)) }
        pub open spec fn l18(&self) -> Seq<Seq<char>> { app(self.l17(), field_lines("RRULE"@, self.rrule)) }
        pub open spec fn l19(&self) -> Seq<Seq<char>> { app(self.l18(), field_lines("DUE"@, self.due)) }
        pub open spec fn l20(&self) -> Seq<Seq<char>> { app(self.l19(), field_lines("DURATION"@, self.duration)) }
        pub open spec fn l21(&self) -> Seq<Seq<char>> { each_from(self.l20(), "ATTACH"@, self.attach@, self.attach@.len()) }
        pub open spec fn l22(&self) -> Seq<Seq<char>> { each_from(self.l21(), "ATTENDEE"@, self.attendee@, self.attendee@.len()) }
        pub open spec fn l23(&self) -> Seq<Seq<char>> { list_from(self.l22(), "CATEGORIES"@, self.categories@) }
        pub open spec fn l24(&self) -> Seq<Seq<char>> { each_from(self.l23(), "COMMENT"@, self.comment@, self.comment@.len()) }
        pub open spec fn l25(&self) -> Seq<Seq<char>> { each_from(self.l24(), "CONTACT"@, self.contact@, self.contact@.len()) }
        pub open spec fn l26(&self) -> Seq<Seq<char>> { list_from(self.l25(), "EXDATE"@, self.exdate@) }
        pub open spec fn l27(&self) -> Seq<Seq<char>> { each_from(self.l26(), "RSTATUS"@, self.rstatus@, self.rstatus@.len()) }
        pub open spec fn l28(&self) -> Seq<Seq<char>> { each_from(self.l27(), "RELATED-TO"@, self.related_to@, self.related_to@.len()) }
        pub open spec fn l29(&self) -> Seq<Seq<char>> { list_from(self.l28(), "RESOURCES"@, self.resources@) }
        pub open spec fn l30(&self) -> Seq<Seq<char>> { each_from(self.l29(), "RDATE"@, self.rdate@, self.rdate@.len()) }
        pub open spec fn l31(&self) -> Seq<Seq<char>> { map_from(self.l30(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l32(&self) -> Seq<Seq<char>> { map_from(self.l31(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "VTODO"@, self.lines().last() == "END:"@ + "VTODO"@
        { reveal(app); let b = "BEGIN:"@ + "VTODO"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("DTSTAMP"@, self.dtstamp), b);
            lemma_heads_app(self.l1(), field_lines("UID"@, self.uid), b);
            lemma_heads_app(self.l2(), field_lines("CLASS"@, self.class), b);
            lemma_heads_app(self.l3(), field_lines("COMPLETED"@, self.completed), b);
            lemma_heads_app(self.l4(), field_lines("CREATED"@, self.created), b);
            lemma_heads_app(self.l5(), field_lines("DTSTART"@, self.dtstart), b);
            lemma_heads_app(self.l6(), field_lines("GEO"@, self.geo), b);
            lemma_heads_app(self.l7(), field_lines("LAST-MODIFIED"@, self.last_modified), b);
            lemma_heads_app(self.l8(), field_lines("LOCATION"@, self.location), b);
            lemma_heads_app(self.l9(), field_lines("ORGANIZER"@, self.organizer), b);
            lemma_heads_app(self.l10(), field_lines("PERCENT-COMPLETE"@, self.percent_complete), b);
            lemma_heads_app(self.l11(), field_lines("PRIORITY"@, self.priority), b);
            lemma_heads_app(self.l12(), field_lines("RECURID"@, self.recurid), b);
            lemma_heads_app(self.l13(), field_lines("SEQUENCE"@, self.sequence), b);
            lemma_heads_app(self.l14(), field_lines("STATUS"@, self.status), b);
            lemma_heads_app(self.l15(), field_lines("SUMMARY"@, self.summary), b);
            lemma_heads_app(self.l16(), field_lines("URL"@, self.url), b);
            lemma_heads_app(self.l17(), field_lines("RRULE"@, self.rrule), b);
            lemma_heads_app(self.l18(), field_lines("DUE"@, self.due), b);
            lemma_heads_app(self.l19(), field_lines("DURATION"@, self.duration), b);
            lemma_heads_each(self.l20(), "ATTACH"@, self.attach@, self.attach@.len(), b);
            lemma_heads_each(self.l21(), "ATTENDEE"@, self.attendee@, self.attendee@.len(), b);
            lemma_heads_list(self.l22(), "CATEGORIES"@, self.categories@, b);
            lemma_heads_each(self.l23(), "COMMENT"@, self.comment@, self.comment@.len(), b);
            lemma_heads_each(self.l24(), "CONTACT"@, self.contact@, self.contact@.len(), b);
            lemma_heads_list(self.l25(), "EXDATE"@, self.exdate@, b);
            lemma_heads_each(self.l26(), "RSTATUS"@, self.rstatus@, self.rstatus@.len(), b);
            lemma_heads_each(self.l27(), "RELATED-TO"@, self.related_to@, self.related_to@.len(), b);
            lemma_heads_list(self.l28(), "RESOURCES"@, self.resources@, b);
            lemma_heads_each(self.l29(), "RDATE"@, self.rdate@, self.rdate@.len(), b);
            lemma_heads_map(self.l30(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l31(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l32(), seq!["END:"@ + "VTODO"@], b); }
    }
    //@ impl crate::components::vtodo | Serialize for VTodo
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("VTODO"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l32(), seq!["END:"@ + "VTODO"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("VTodo"); reveal_strlit("VTODO"); ax_uppercase_ascii("VTodo"@); assert(uppercase("VTodo"@) =~= "VTODO"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); VTodo::lemma_name(); }
    //@ closure 0 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.attach@.len(), forall|k: int| 0 <= k < self.attach@.len() ==> *(#[trigger] it.seq()[k]) == self.attach@[k],
                writes(s@, each_from(self.l20(), "ATTACH"@, self.attach@, it.index@ as nat))
    //@ closure 1 |x: &crate::Uri| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 1 it
            invariant it.seq().len() == self.attendee@.len(), forall|k: int| 0 <= k < self.attendee@.len() ==> *(#[trigger] it.seq()[k]) == self.attendee@[k],
                writes(s@, each_from(self.l21(), "ATTENDEE"@, self.attendee@, it.index@ as nat))
    //@ closure 2 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.categories@.len(), forall|k: int| 0 <= k < self.categories@.len() ==> *(#[trigger] it.seq()[k]) == self.categories@[k],
                writes(s@, each_from(self.l22(), "CATEGORIES"@, self.categories@, it.index@ as nat))
    //@ closure 3 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 3 it
            invariant it.seq().len() == self.comment@.len(), forall|k: int| 0 <= k < self.comment@.len() ==> *(#[trigger] it.seq()[k]) == self.comment@[k],
                writes(s@, each_from(self.l23(), "COMMENT"@, self.comment@, it.index@ as nat))
    //@ closure 4 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 4 it
            invariant it.seq().len() == self.contact@.len(), forall|k: int| 0 <= k < self.contact@.len() ==> *(#[trigger] it.seq()[k]) == self.contact@[k],
                writes(s@, each_from(self.l24(), "CONTACT"@, self.contact@, it.index@ as nat))
    //@ closure 5 |x: &crate::Date| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 5 it
            invariant it.seq().len() == self.exdate@.len(), forall|k: int| 0 <= k < self.exdate@.len() ==> *(#[trigger] it.seq()[k]) == self.exdate@[k],
                writes(s@, each_from(self.l25(), "EXDATE"@, self.exdate@, it.index@ as nat))
    //@ closure 6 |x: &crate::RequestStatus| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 6 it
            invariant it.seq().len() == self.rstatus@.len(), forall|k: int| 0 <= k < self.rstatus@.len() ==> *(#[trigger] it.seq()[k]) == self.rstatus@[k],
                writes(s@, each_from(self.l26(), "RSTATUS"@, self.rstatus@, it.index@ as nat))
    //@ closure 7 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 7 it
            invariant it.seq().len() == self.related_to@.len(), forall|k: int| 0 <= k < self.related_to@.len() ==> *(#[trigger] it.seq()[k]) == self.related_to@[k],
                writes(s@, each_from(self.l27(), "RELATED-TO"@, self.related_to@, it.index@ as nat))
    //@ closure 8 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 8 it
            invariant it.seq().len() == self.resources@.len(), forall|k: int| 0 <= k < self.resources@.len() ==> *(#[trigger] it.seq()[k]) == self.resources@[k],
                writes(s@, each_from(self.l28(), "RESOURCES"@, self.resources@, it.index@ as nat))
    //@ closure 9 |x: &crate::RDate| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 9 it
            invariant it.seq().len() == self.rdate@.len(), forall|k: int| 0 <= k < self.rdate@.len() ==> *(#[trigger] it.seq()[k]) == self.rdate@[k],
                writes(s@, each_from(self.l29(), "RDATE"@, self.rdate@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 10 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l30(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 11 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l31(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_audio {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11,C18
    impl Audio {
        proof fn lemma_name() ensures "AUDIO"@.len() == 5 { reveal_strlit("AUDIO"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "AUDIO"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("ACTION"@, self.action)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("TRIGGER"@, self.trigger)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("DURATION"@, self.duration)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("REPEAT"@, self.repeat)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { each_from(self.l4(), "ATTACH"@, self.attach@, self.attach@.len()) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { map_from(self.l5(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { map_from(self.l6(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "AUDIO"@, self.lines().last() == "END:"@ + "AUDIO"@
        { reveal(app); let b = "BEGIN:"@ + "AUDIO"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("ACTION"@, self.action), b);
            lemma_heads_app(self.l1(), field_lines("TRIGGER"@, self.trigger), b);
            lemma_heads_app(self.l2(), field_lines("DURATION"@, self.duration), b);
            lemma_heads_app(self.l3(), field_lines("REPEAT"@, self.repeat), b);
            lemma_heads_each(self.l4(), "ATTACH"@, self.attach@, self.attach@.len(), b);
            lemma_heads_map(self.l5(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l6(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l7(), seq!["END:"@ + "AUDIO"@], b); }
    }
    //@ impl crate::components::valarm | Serialize for Audio
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("AUDIO"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l7(), seq!["END:"@ + "AUDIO"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("Audio"); reveal_strlit("AUDIO"); ax_uppercase_ascii("Audio"@); assert(uppercase("Audio"@) =~= "AUDIO"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); Audio::lemma_name(); }
    //@ closure 0 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.attach@.len(), forall|k: int| 0 <= k < self.attach@.len() ==> *(#[trigger] it.seq()[k]) == self.attach@[k],
                writes(s@, each_from(self.l4(), "ATTACH"@, self.attach@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 1 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l5(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 2 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l6(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_display {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11,C18
    impl Display {
        proof fn lemma_name() ensures "DISPLAY"@.len() == 7 { reveal_strlit("DISPLAY"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "DISPLAY"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("ACTION"@, self.action)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("TRIGGER"@, self.trigger)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("DESCRIPTION"@, self.description)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("DURATION"@, self.duration)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { app(self.l4(), field_lines("REPEAT"@, self.repeat)) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { map_from(self.l5(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { map_from(self.l6(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "DISPLAY"@, self.lines().last() == "END:"@ + "DISPLAY"@
        { reveal(app); let b = "BEGIN:"@ + "DISPLAY"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("ACTION"@, self.action), b);
            lemma_heads_app(self.l1(), field_lines("TRIGGER"@, self.trigger), b);
            lemma_heads_app(self.l2(), field_lines("DESCRIPTION"@, self.description), b);
            lemma_heads_app(self.l3(), field_lines("DURATION"@, self.duration), b);
            lemma_heads_app(self.l4(), field_lines("REPEAT"@, self.repeat), b);
            lemma_heads_map(self.l5(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l6(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l7(), seq!["END:"@ + "DISPLAY"@], b); }
    }
    //@ impl crate::components::valarm | Serialize for Display
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("DISPLAY"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l7(), seq!["END:"@ + "DISPLAY"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("Display"); reveal_strlit("DISPLAY"); ax_uppercase_ascii("Display"@); assert(uppercase("Display"@) =~= "DISPLAY"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); Display::lemma_name(); }
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 0 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l5(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 1 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l6(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_email {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11,C18
    impl Email {
        proof fn lemma_name() ensures "EMAIL"@.len() == 5 { reveal_strlit("EMAIL"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "EMAIL"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("ACTION"@, self.action)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("TRIGGER"@, self.trigger)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("DESCRIPTION"@, self.description)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("SUMMARY"@, self.summary)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { each_from(self.l4(), "ATTENDEE"@, self.attendee@, self.attendee@.len()) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { app(self.l5(), field_lines("DURATION"@, self.duration)) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { app(self.l6(), field_lines("REPEAT"@, self.repeat)) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { each_from(self.l7(), "ATTACH"@, self.attach@, self.attach@.len()) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { map_from(self.l8(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l10(&self) -> Seq<Seq<char>> { map_from(self.l9(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "EMAIL"@, self.lines().last() == "END:"@ + "EMAIL"@
        { reveal(app); let b = "BEGIN:"@ + "EMAIL"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("ACTION"@, self.action), b);
            lemma_heads_app(self.l1(), field_lines("TRIGGER"@, self.trigger), b);
            lemma_heads_app(self.l2(), field_lines("DESCRIPTION"@, self.description), b);
            lemma_heads_app(self.l3(), field_lines("SUMMARY"@, self.summary), b);
            lemma_heads_each(self.l4(), "ATTENDEE"@, self.attendee@, self.attendee@.len(), b);
            lemma_heads_app(self.l5(), field_lines("DURATION"@, self.duration), b);
            lemma_heads_app(self.l6(), field_lines("REPEAT"@, self.repeat), b);
            lemma_heads_each(self.l7(), "ATTACH"@, self.attach@, self.attach@.len(), b);
            lemma_heads_map(self.l8(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l9(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l10(), seq!["END:"@ + "EMAIL"@], b); }
    }
    //@ impl crate::components::valarm | Serialize for Email
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("EMAIL"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l10(), seq!["END:"@ + "EMAIL"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("Email"); reveal_strlit("EMAIL"); ax_uppercase_ascii("Email"@); assert(uppercase("Email"@) =~= "EMAIL"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); Email::lemma_name(); }
    //@ closure 0 |x: &crate::Uri| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.attendee@.len(), forall|k: int| 0 <= k < self.attendee@.len() ==> *(#[trigger] it.seq()[k]) == self.attendee@[k],
                writes(s@, each_from(self.l4(), "ATTENDEE"@, self.attendee@, it.index@ as nat))
    //@ closure 1 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 1 it
            invariant it.seq().len() == self.attach@.len(), forall|k: int| 0 <= k < self.attach@.len() ==> *(#[trigger] it.seq()[k]) == self.attach@[k],
                writes(s@, each_from(self.l7(), "ATTACH"@, self.attach@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 2 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l8(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 3 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l9(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_vtimezone {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl VTimezone {
        proof fn lemma_name() ensures "VTIMEZONE"@.len() == 9 { reveal_strlit("VTIMEZONE"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "VTIMEZONE"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("TZID"@, self.tzid)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("LAST-MODIFIED"@, self.last_modified)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("TZURL"@, self.tzurl)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { map_from(self.l3(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { map_from(self.l4(), self.iana_prop@, self.iana_prop@.len()) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { each_from(self.l5(), "STANDARD"@, self.standard@, self.standard@.len()) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { each_from(self.l6(), "DAYLIGHT"@, self.daylight@, self.daylight@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "VTIMEZONE"@, self.lines().last() == "END:"@ + "VTIMEZONE"@
        { reveal(app); let b = "BEGIN:"@ + "VTIMEZONE"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("TZID"@, self.tzid), b);
            lemma_heads_app(self.l1(), field_lines("LAST-MODIFIED"@, self.last_modified), b);
            lemma_heads_app(self.l2(), field_lines("TZURL"@, self.tzurl), b);
            lemma_heads_map(self.l3(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l4(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_each(self.l5(), "STANDARD"@, self.standard@, self.standard@.len(), b);
            lemma_heads_each(self.l6(), "DAYLIGHT"@, self.daylight@, self.daylight@.len(), b);
            lemma_heads_app(self.l7(), seq!["END:"@ + "VTIMEZONE"@], b); }
    }
    //@ impl crate::components::vtimezone | Serialize for VTimezone
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("VTIMEZONE"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l7(), seq!["END:"@ + "VTIMEZONE"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("VTimezone"); reveal_strlit("VTIMEZONE"); ax_uppercase_ascii("VTimezone"@); assert(uppercase("VTimezone"@) =~= "VTIMEZONE"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); VTimezone::lemma_name(); }
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 0 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l3(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 1 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l4(), self.iana_prop@, it.index@ as nat))
    //@ closure 0 |x: &Standard| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.standard@.len(), forall|k: int| 0 <= k < self.standard@.len() ==> *(#[trigger] it.seq()[k]) == self.standard@[k],
                writes(s@, each_from(self.l5(), "STANDARD"@, self.standard@, it.index@ as nat))
    //@ closure 1 |x: &Daylight| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 3 it
            invariant it.seq().len() == self.daylight@.len(), forall|k: int| 0 <= k < self.daylight@.len() ==> *(#[trigger] it.seq()[k]) == self.daylight@[k],
                writes(s@, each_from(self.l6(), "DAYLIGHT"@, self.daylight@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_standard {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl Standard {
        proof fn lemma_name() ensures "STANDARD"@.len() == 8 { reveal_strlit("STANDARD"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "STANDARD"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("DTSTART"@, self.dtstart)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("TZOFFSETTO"@, self.tzoffsetto)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("TZOFFSETFROM"@, self.tzoffsetfrom)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("RRULE"@, self.rrule)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { each_from(self.l4(), "COMMENT"@, self.comment@, self.comment@.len()) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { each_from(self.l5(), "RDATE"@, self.rdate@, self.rdate@.len()) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { each_from(self.l6(), "TZNAME"@, self.tzname@, self.tzname@.len()) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { map_from(self.l7(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { map_from(self.l8(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "STANDARD"@, self.lines().last() == "END:"@ + "STANDARD"@
        { reveal(app); let b = "BEGIN:"@ + "STANDARD"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("DTSTART"@, self.dtstart), b);
            lemma_heads_app(self.l1(), field_lines("TZOFFSETTO"@, self.tzoffsetto), b);
            lemma_heads_app(self.l2(), field_lines("TZOFFSETFROM"@, self.tzoffsetfrom), b);
            lemma_heads_app(self.l3(), field_lines("RRULE"@, self.rrule), b);
            lemma_heads_each(self.l4(), "COMMENT"@, self.comment@, self.comment@.len(), b);
            lemma_heads_each(self.l5(), "RDATE"@, self.rdate@, self.rdate@.len(), b);
            lemma_heads_each(self.l6(), "TZNAME"@, self.tzname@, self.tzname@.len(), b);
            lemma_heads_map(self.l7(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l8(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l9(), seq!["END:"@ + "STANDARD"@], b); }
    }
    //@ impl crate::components::vtimezone | Serialize for Standard
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("STANDARD"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l9(), seq!["END:"@ + "STANDARD"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("Standard"); reveal_strlit("STANDARD"); ax_uppercase_ascii("Standard"@); assert(uppercase("Standard"@) =~= "STANDARD"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); Standard::lemma_name(); }
    //@ closure 0 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.comment@.len(), forall|k: int| 0 <= k < self.comment@.len() ==> *(#[trigger] it.seq()[k]) == self.comment@[k],
                writes(s@, each_from(self.l4(), "COMMENT"@, self.comment@, it.index@ as nat))
    //@ closure 1 |x: &crate::RDate| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 1 it
            invariant it.seq().len() == self.rdate@.len(), forall|k: int| 0 <= k < self.rdate@.len() ==> *(#[trigger] it.seq()[k]) == self.rdate@[k],
                writes(s@, each_from(self.l5(), "RDATE"@, self.rdate@, it.index@ as nat))
    //@ closure 2 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.tzname@.len(), forall|k: int| 0 <= k < self.tzname@.len() ==> *(#[trigger] it.seq()[k]) == self.tzname@[k],
                writes(s@, each_from(self.l6(), "TZNAME"@, self.tzname@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 3 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l7(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 4 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l8(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
pub mod w_daylight {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::{uppercase, ax_uppercase_ascii};
    use crate::ser::*;
    use crate::lines::*;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::*;
    broadcast use crate::lines::group_lines;
    //@ rename iter vx_iter
    //@ rename push_str vx_push_str
    //@ props C10,C11
    impl Daylight {
        proof fn lemma_name() ensures "DAYLIGHT"@.len() == 8 { reveal_strlit("DAYLIGHT"); }
        pub open spec fn l0(&self) -> Seq<Seq<char>> { app(Seq::empty(), seq!["BEGIN:"@ + "DAYLIGHT"@]) }
        pub open spec fn l1(&self) -> Seq<Seq<char>> { app(self.l0(), field_lines("DTSTART"@, self.dtstart)) }
        pub open spec fn l2(&self) -> Seq<Seq<char>> { app(self.l1(), field_lines("TZOFFSETTO"@, self.tzoffsetto)) }
        pub open spec fn l3(&self) -> Seq<Seq<char>> { app(self.l2(), field_lines("TZOFFSETFROM"@, self.tzoffsetfrom)) }
        pub open spec fn l4(&self) -> Seq<Seq<char>> { app(self.l3(), field_lines("RRULE"@, self.rrule)) }
        pub open spec fn l5(&self) -> Seq<Seq<char>> { each_from(self.l4(), "COMMENT"@, self.comment@, self.comment@.len()) }
        pub open spec fn l6(&self) -> Seq<Seq<char>> { each_from(self.l5(), "RDATE"@, self.rdate@, self.rdate@.len()) }
        pub open spec fn l7(&self) -> Seq<Seq<char>> { each_from(self.l6(), "TZNAME"@, self.tzname@, self.tzname@.len()) }
        pub open spec fn l8(&self) -> Seq<Seq<char>> { map_from(self.l7(), self.x_prop@, self.x_prop@.len()) }
        pub open spec fn l9(&self) -> Seq<Seq<char>> { map_from(self.l8(), self.iana_prop@, self.iana_prop@.len()) }
        pub proof fn lemma_begin(&self) ensures self.lines().len() >= 2, self.lines()[0] == "BEGIN:"@ + "DAYLIGHT"@, self.lines().last() == "END:"@ + "DAYLIGHT"@
        { reveal(app); let b = "BEGIN:"@ + "DAYLIGHT"@; assert(heads(self.l0(), b));
            lemma_heads_app(self.l0(), field_lines("DTSTART"@, self.dtstart), b);
            lemma_heads_app(self.l1(), field_lines("TZOFFSETTO"@, self.tzoffsetto), b);
            lemma_heads_app(self.l2(), field_lines("TZOFFSETFROM"@, self.tzoffsetfrom), b);
            lemma_heads_app(self.l3(), field_lines("RRULE"@, self.rrule), b);
            lemma_heads_each(self.l4(), "COMMENT"@, self.comment@, self.comment@.len(), b);
            lemma_heads_each(self.l5(), "RDATE"@, self.rdate@, self.rdate@.len(), b);
            lemma_heads_each(self.l6(), "TZNAME"@, self.tzname@, self.tzname@.len(), b);
            lemma_heads_map(self.l7(), self.x_prop@, self.x_prop@.len(), b);
            lemma_heads_map(self.l8(), self.iana_prop@, self.iana_prop@.len(), b);
            lemma_heads_app(self.l9(), seq!["END:"@ + "DAYLIGHT"@], b); }
    }
    //@ impl crate::components::vtimezone | Serialize for Daylight
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { Some("DAYLIGHT"@) }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { false }
    uninterp spec fn ser(&self) -> Seq<char>;
    /// BEGIN, the fields, the other properties, the sub-components, END
    open spec fn lines(&self) -> Seq<Seq<char>> { app(self.l9(), seq!["END:"@ + "DAYLIGHT"@]) }
    //@ method component
    //@ head
        proof { reveal_strlit("Daylight"); reveal_strlit("DAYLIGHT"); ax_uppercase_ascii("Daylight"@); assert(uppercase("Daylight"@) =~= "DAYLIGHT"@); }
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ noreveal
    //@ attr #[verifier::rlimit(60)]
    //@ head
        proof { lemma_writes_none(); lemma_marks(); Daylight::lemma_name(); }
    //@ closure 0 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 0 it
            invariant it.seq().len() == self.comment@.len(), forall|k: int| 0 <= k < self.comment@.len() ==> *(#[trigger] it.seq()[k]) == self.comment@[k],
                writes(s@, each_from(self.l4(), "COMMENT"@, self.comment@, it.index@ as nat))
    //@ closure 1 |x: &crate::RDate| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 1 it
            invariant it.seq().len() == self.rdate@.len(), forall|k: int| 0 <= k < self.rdate@.len() ==> *(#[trigger] it.seq()[k]) == self.rdate@[k],
                writes(s@, each_from(self.l5(), "RDATE"@, self.rdate@, it.index@ as nat))
    //@ closure 2 |x: &crate::Text| -> (r: bool)
            ensures r == x.attr_spec() is None
    //@ loop 2 it
            invariant it.seq().len() == self.tzname@.len(), forall|k: int| 0 <= k < self.tzname@.len() ==> *(#[trigger] it.seq()[k]) == self.tzname@[k],
                writes(s@, each_from(self.l6(), "TZNAME"@, self.tzname@, it.index@ as nat))
    //@ sub in it: &self.x_prop => in it: self.x_prop.vx_iter()
    //@ loop 3 it
            invariant it.seq().len() == self.x_prop@.len(), forall|k: int| 0 <= k < self.x_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.x_prop@[k],
                writes(s@, map_from(self.l7(), self.x_prop@, it.index@ as nat))
    //@ sub in it: &self.iana_prop => in it: self.iana_prop.vx_iter()
    //@ loop 4 it
            invariant it.seq().len() == self.iana_prop@.len(), forall|k: int| 0 <= k < self.iana_prop@.len() ==> *(#[trigger] it.seq()[k]) == self.iana_prop@[k],
                writes(s@, map_from(self.l8(), self.iana_prop@, it.index@ as nat))
    //@ end
    //@ endimpl
    //@ norename iter
    //@ norename push_str
    //@ props
}
