// generated by tools/gencomp.py
// Each component, written and read again.
pub mod rounds {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::ser::*;
    use crate::lines::*;
    use crate::grammar::*;
    use crate::again::*;
    use crate::prop::*;
    use crate::rlines::*;
    use crate::glue::lines_of;
    use crate::nest::*;
    use crate::trip::*;
    use crate::round::*;
    use crate::whole::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::components::vtimezone::Component as Part;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11
    impl Form for VCalendar {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if VCalendar::tag(k) >= 0 { VCalendar::tag(k) } else if is_x(k) { 4 } else { 5 } }
    }
    impl VCalendar {
        pub proof fn tagged_all() ensures tagged::<VCalendar, P_prodid>(0), tagged::<VCalendar, P_version>(1), tagged::<VCalendar, P_calscale>(2), tagged::<VCalendar, P_method>(3),
            forall|k: Seq<char>| (#[trigger] VCalendar::tagx(k) == 4) == (!VCalendar::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] VCalendar::tagx(k) == 5) == (!VCalendar::known(k) && !is_x(k)),
        { reveal(VCalendar::tag); reveal_strlit("PRODID"); reveal_strlit("VERSION"); reveal_strlit("CALSCALE"); reveal_strlit("METHOD"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("PRODID"@, just(self.prodid)) } else if i == 1 { each("VERSION"@, just(self.version)) } else if i == 2 { each("CALSCALE"@, maybe(self.calscale)) } else if i == 3 { each("METHOD"@, maybe(self.method)) } else if i == 4 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(6, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 6, self.parts()[0] == each("PRODID"@, just(self.prodid)), self.parts()[1] == each("VERSION"@, just(self.version)), self.parts()[2] == each("CALSCALE"@, maybe(self.calscale)), self.parts()[3] == each("METHOD"@, maybe(self.method)), self.parts()[4] == mapped(self.x_prop@), self.parts()[5] == mapped(self.iana_prop@)
        { reveal(VCalendar::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_prodid, _>(just(self.prodid))
            &&& can_all::<P_version, _>(just(self.version))
            &&& can_all::<P_calscale, _>(maybe(self.calscale))
            &&& can_all::<P_method, _>(maybe(self.method))
            &&& map_fit::<VCalendar>(self.x_prop@, 4)
            &&& map_fit::<VCalendar>(self.iana_prop@, 5)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &VCalendar) -> bool {
            &&& self.prodid.same(&v.prodid)
            &&& self.version.same(&v.version)
            &&& same_opt(maybe(self.calscale), v.calscale)
            &&& same_opt(maybe(self.method), v.method)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<VCalendar>(self.l6(), "VCALENDAR"@, self.parts(), 6), self.parts().len() == 6
        {
            reveal(VCalendar::fields_fit); VCalendar::tagged_all(); self.lemma_parts();
            let (m, fs) = ("VCALENDAR"@, self.parts());
            lemma_begun::<VCalendar>(m, fs);
            grow_req::<VCalendar, P_prodid, _>(self.l0(), m, fs, 0, self.prodid);
            grow_req::<VCalendar, P_version, _>(self.l1(), m, fs, 1, self.version);
            grow_opt::<VCalendar, P_calscale, _>(self.l2(), m, fs, 2, self.calscale);
            grow_opt::<VCalendar, P_method, _>(self.l3(), m, fs, 3, self.method);
            grow_map::<VCalendar>(self.l4(), m, fs, 4, self.x_prop@);
            grow_map::<VCalendar>(self.l5(), m, fs, 5, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !VCalendar::unreadable(ls), forall|v: VCalendar| #[trigger] VCalendar::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(VCalendar::fields_fit); reveal(VCalendar::same_fields); VCalendar::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<VCalendar>(self.l6(), "VCALENDAR"@, self.parts());
            let fs = self.parts();
            assert(sel::<VCalendar>(lines_of(ls), 0) == fs[0]); assert(sel::<VCalendar>(lines_of(ls), 1) == fs[1]); assert(sel::<VCalendar>(lines_of(ls), 2) == fs[2]); assert(sel::<VCalendar>(lines_of(ls), 3) == fs[3]); assert(sel::<VCalendar>(lines_of(ls), 4) == fs[4]); assert(sel::<VCalendar>(lines_of(ls), 5) == fs[5]);
            read_req::<VCalendar, P_prodid, _>(ls, 0, self.prodid);
            read_req::<VCalendar, P_version, _>(ls, 1, self.version);
            read_opt::<VCalendar, P_calscale, _>(ls, 2, self.calscale);
            read_opt::<VCalendar, P_method, _>(ls, 3, self.method);
            assert forall|v: VCalendar| #[trigger] VCalendar::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<VCalendar>(ls, 4, |k: Seq<char>| !VCalendar::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<VCalendar>(ls, 5, |k: Seq<char>| !VCalendar::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for VEvent {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if VEvent::tag(k) >= 0 { VEvent::tag(k) } else if is_x(k) { 30 } else { 31 } }
    }
    impl VEvent {
        pub proof fn tagged_all() ensures tagged::<VEvent, P_dtstamp>(0), tagged::<VEvent, P_uid>(1), tagged::<VEvent, P_dtstart>(2), tagged::<VEvent, P_class>(3), tagged::<VEvent, P_created>(4), tagged::<VEvent, P_description>(5), tagged::<VEvent, P_geo>(6), tagged::<VEvent, P_last_modified>(7), tagged::<VEvent, P_location>(8), tagged::<VEvent, P_organizer>(9), tagged::<VEvent, P_priority>(10), tagged::<VEvent, P_sequence>(11), tagged::<VEvent, P_status>(12), tagged::<VEvent, P_summary>(13), tagged::<VEvent, P_transp>(14), tagged::<VEvent, P_url>(15), tagged::<VEvent, P_recurid>(16), tagged::<VEvent, P_rrule>(17), tagged::<VEvent, P_dtend>(18), tagged::<VEvent, P_duration>(19), tagged::<VEvent, P_attach>(20), tagged::<VEvent, P_attendee>(21), tagged::<VEvent, P_categories>(22), tagged::<VEvent, P_comment>(23), tagged::<VEvent, P_contact>(24), tagged::<VEvent, P_exdate>(25), tagged::<VEvent, P_rstatus>(26), tagged::<VEvent, P_related_to>(27), tagged::<VEvent, P_resources>(28), tagged::<VEvent, P_rdate>(29),
            forall|k: Seq<char>| (#[trigger] VEvent::tagx(k) == 30) == (!VEvent::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] VEvent::tagx(k) == 31) == (!VEvent::known(k) && !is_x(k)),
        { reveal(VEvent::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("DTSTART"); reveal_strlit("CLASS"); reveal_strlit("CREATED"); reveal_strlit("DESCRIPTION"); reveal_strlit("GEO"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("LOCATION"); reveal_strlit("ORGANIZER"); reveal_strlit("PRIORITY"); reveal_strlit("SEQUENCE"); reveal_strlit("STATUS"); reveal_strlit("SUMMARY"); reveal_strlit("TRANSP"); reveal_strlit("URL"); reveal_strlit("RECURID"); reveal_strlit("RRULE"); reveal_strlit("DTEND"); reveal_strlit("DURATION"); reveal_strlit("ATTACH"); reveal_strlit("ATTENDEE"); reveal_strlit("CATEGORIES"); reveal_strlit("COMMENT"); reveal_strlit("CONTACT"); reveal_strlit("EXDATE"); reveal_strlit("RSTATUS"); reveal_strlit("RELATED-TO"); reveal_strlit("RESOURCES"); reveal_strlit("RDATE"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("DTSTAMP"@, just(self.dtstamp)) } else if i == 1 { each("UID"@, just(self.uid)) } else if i == 2 { each("DTSTART"@, just(self.dtstart)) } else if i == 3 { each("CLASS"@, maybe(self.class)) } else if i == 4 { each("CREATED"@, maybe(self.created)) } else if i == 5 { each("DESCRIPTION"@, maybe(self.description)) } else if i == 6 { each("GEO"@, maybe(self.geo)) } else if i == 7 { each("LAST-MODIFIED"@, maybe(self.last_modified)) } else if i == 8 { each("LOCATION"@, maybe(self.location)) } else if i == 9 { each("ORGANIZER"@, maybe(self.organizer)) } else if i == 10 { each("PRIORITY"@, maybe(self.priority)) } else if i == 11 { each("SEQUENCE"@, maybe(self.sequence)) } else if i == 12 { each("STATUS"@, maybe(self.status)) } else if i == 13 { each("SUMMARY"@, maybe(self.summary)) } else if i == 14 { each("TRANSP"@, maybe(self.transp)) } else if i == 15 { each("URL"@, maybe(self.url)) } else if i == 16 { each("RECURID"@, maybe(self.recurid)) } else if i == 17 { each("RRULE"@, maybe(self.rrule)) } else if i == 18 { each("DTEND"@, maybe(self.dtend)) } else if i == 19 { each("DURATION"@, maybe(self.duration)) } else if i == 20 { each("ATTACH"@, self.attach@) } else if i == 21 { each("ATTENDEE"@, self.attendee@) } else if i == 22 { chunks("CATEGORIES"@, cut(self.categories@)) } else if i == 23 { each("COMMENT"@, self.comment@) } else if i == 24 { each("CONTACT"@, self.contact@) } else if i == 25 { chunks("EXDATE"@, cut(self.exdate@)) } else if i == 26 { each("RSTATUS"@, self.rstatus@) } else if i == 27 { each("RELATED-TO"@, self.related_to@) } else if i == 28 { chunks("RESOURCES"@, cut(self.resources@)) } else if i == 29 { each("RDATE"@, self.rdate@) } else if i == 30 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(32, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 32, self.parts()[0] == each("DTSTAMP"@, just(self.dtstamp)), self.parts()[1] == each("UID"@, just(self.uid)), self.parts()[2] == each("DTSTART"@, just(self.dtstart)), self.parts()[3] == each("CLASS"@, maybe(self.class)), self.parts()[4] == each("CREATED"@, maybe(self.created)), self.parts()[5] == each("DESCRIPTION"@, maybe(self.description)), self.parts()[6] == each("GEO"@, maybe(self.geo)), self.parts()[7] == each("LAST-MODIFIED"@, maybe(self.last_modified)), self.parts()[8] == each("LOCATION"@, maybe(self.location)), self.parts()[9] == each("ORGANIZER"@, maybe(self.organizer)), self.parts()[10] == each("PRIORITY"@, maybe(self.priority)), self.parts()[11] == each("SEQUENCE"@, maybe(self.sequence)), self.parts()[12] == each("STATUS"@, maybe(self.status)), self.parts()[13] == each("SUMMARY"@, maybe(self.summary)), self.parts()[14] == each("TRANSP"@, maybe(self.transp)), self.parts()[15] == each("URL"@, maybe(self.url)), self.parts()[16] == each("RECURID"@, maybe(self.recurid)), self.parts()[17] == each("RRULE"@, maybe(self.rrule)), self.parts()[18] == each("DTEND"@, maybe(self.dtend)), self.parts()[19] == each("DURATION"@, maybe(self.duration)), self.parts()[20] == each("ATTACH"@, self.attach@), self.parts()[21] == each("ATTENDEE"@, self.attendee@), self.parts()[22] == chunks("CATEGORIES"@, cut(self.categories@)), self.parts()[23] == each("COMMENT"@, self.comment@), self.parts()[24] == each("CONTACT"@, self.contact@), self.parts()[25] == chunks("EXDATE"@, cut(self.exdate@)), self.parts()[26] == each("RSTATUS"@, self.rstatus@), self.parts()[27] == each("RELATED-TO"@, self.related_to@), self.parts()[28] == chunks("RESOURCES"@, cut(self.resources@)), self.parts()[29] == each("RDATE"@, self.rdate@), self.parts()[30] == mapped(self.x_prop@), self.parts()[31] == mapped(self.iana_prop@)
        { reveal(VEvent::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_dtstamp, _>(just(self.dtstamp))
            &&& can_all::<P_uid, _>(just(self.uid))
            &&& can_all::<P_dtstart, _>(just(self.dtstart))
            &&& can_all::<P_class, _>(maybe(self.class))
            &&& can_all::<P_created, _>(maybe(self.created))
            &&& can_all::<P_description, _>(maybe(self.description))
            &&& can_all::<P_geo, _>(maybe(self.geo))
            &&& can_all::<P_last_modified, _>(maybe(self.last_modified))
            &&& can_all::<P_location, _>(maybe(self.location))
            &&& can_all::<P_organizer, _>(maybe(self.organizer))
            &&& can_all::<P_priority, _>(maybe(self.priority))
            &&& can_all::<P_sequence, _>(maybe(self.sequence))
            &&& can_all::<P_status, _>(maybe(self.status))
            &&& can_all::<P_summary, _>(maybe(self.summary))
            &&& can_all::<P_transp, _>(maybe(self.transp))
            &&& can_all::<P_url, _>(maybe(self.url))
            &&& can_all::<P_recurid, _>(maybe(self.recurid))
            &&& can_all::<P_rrule, _>(maybe(self.rrule))
            &&& can_all::<P_dtend, _>(maybe(self.dtend))
            &&& can_all::<P_duration, _>(maybe(self.duration))
            &&& can_all::<P_attach, _>(self.attach@)
            &&& can_all::<P_attendee, _>(self.attendee@)
            &&& all_fit(self.categories@)
            &&& can_all::<P_comment, _>(self.comment@)
            &&& can_all::<P_contact, _>(self.contact@)
            &&& all_fit(self.exdate@)
            &&& can_all::<P_rstatus, _>(self.rstatus@)
            &&& can_all::<P_related_to, _>(self.related_to@)
            &&& all_fit(self.resources@)
            &&& can_all::<P_rdate, _>(self.rdate@)
            &&& map_fit::<VEvent>(self.x_prop@, 30)
            &&& map_fit::<VEvent>(self.iana_prop@, 31)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &VEvent) -> bool {
            &&& self.dtstamp.same(&v.dtstamp)
            &&& self.uid.same(&v.uid)
            &&& self.dtstart.same(&v.dtstart)
            &&& same_opt(maybe(self.class), v.class)
            &&& same_opt(maybe(self.created), v.created)
            &&& same_opt(maybe(self.description), v.description)
            &&& same_opt(maybe(self.geo), v.geo)
            &&& same_opt(maybe(self.last_modified), v.last_modified)
            &&& same_opt(maybe(self.location), v.location)
            &&& same_opt(maybe(self.organizer), v.organizer)
            &&& same_opt(maybe(self.priority), v.priority)
            &&& same_opt(maybe(self.sequence), v.sequence)
            &&& same_opt(maybe(self.status), v.status)
            &&& same_opt(maybe(self.summary), v.summary)
            &&& same_opt(maybe(self.transp), v.transp)
            &&& same_opt(maybe(self.url), v.url)
            &&& same_opt(maybe(self.recurid), v.recurid)
            &&& same_opt(maybe(self.rrule), v.rrule)
            &&& same_opt(maybe(self.dtend), v.dtend)
            &&& same_opt(maybe(self.duration), v.duration)
            &&& all_same(self.attach@, v.attach@)
            &&& all_same(self.attendee@, v.attendee@)
            &&& all_same(self.categories@, v.categories@)
            &&& all_same(self.comment@, v.comment@)
            &&& all_same(self.contact@, v.contact@)
            &&& all_same(self.exdate@, v.exdate@)
            &&& all_same(self.rstatus@, v.rstatus@)
            &&& all_same(self.related_to@, v.related_to@)
            &&& all_same(self.resources@, v.resources@)
            &&& all_same(self.rdate@, v.rdate@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<VEvent>(self.l32(), "VEVENT"@, self.parts(), 32), self.parts().len() == 32
        {
            reveal(VEvent::fields_fit); VEvent::tagged_all(); self.lemma_parts();
            let (m, fs) = ("VEVENT"@, self.parts());
            lemma_begun::<VEvent>(m, fs);
            grow_req::<VEvent, P_dtstamp, _>(self.l0(), m, fs, 0, self.dtstamp);
            grow_req::<VEvent, P_uid, _>(self.l1(), m, fs, 1, self.uid);
            grow_req::<VEvent, P_dtstart, _>(self.l2(), m, fs, 2, self.dtstart);
            grow_opt::<VEvent, P_class, _>(self.l3(), m, fs, 3, self.class);
            grow_opt::<VEvent, P_created, _>(self.l4(), m, fs, 4, self.created);
            grow_opt::<VEvent, P_description, _>(self.l5(), m, fs, 5, self.description);
            grow_opt::<VEvent, P_geo, _>(self.l6(), m, fs, 6, self.geo);
            grow_opt::<VEvent, P_last_modified, _>(self.l7(), m, fs, 7, self.last_modified);
            grow_opt::<VEvent, P_location, _>(self.l8(), m, fs, 8, self.location);
            grow_opt::<VEvent, P_organizer, _>(self.l9(), m, fs, 9, self.organizer);
            grow_opt::<VEvent, P_priority, _>(self.l10(), m, fs, 10, self.priority);
            grow_opt::<VEvent, P_sequence, _>(self.l11(), m, fs, 11, self.sequence);
            grow_opt::<VEvent, P_status, _>(self.l12(), m, fs, 12, self.status);
            grow_opt::<VEvent, P_summary, _>(self.l13(), m, fs, 13, self.summary);
            grow_opt::<VEvent, P_transp, _>(self.l14(), m, fs, 14, self.transp);
            grow_opt::<VEvent, P_url, _>(self.l15(), m, fs, 15, self.url);
            grow_opt::<VEvent, P_recurid, _>(self.l16(), m, fs, 16, self.recurid);
            grow_opt::<VEvent, P_rrule, _>(self.l17(), m, fs, 17, self.rrule);
            grow_opt::<VEvent, P_dtend, _>(self.l18(), m, fs, 18, self.dtend);
            grow_opt::<VEvent, P_duration, _>(self.l19(), m, fs, 19, self.duration);
            grow_vec::<VEvent, P_attach, _>(self.l20(), m, fs, 20, self.attach@);
            grow_vec::<VEvent, P_attendee, _>(self.l21(), m, fs, 21, self.attendee@);
            grow_list::<VEvent, P_categories, _>(self.l22(), m, fs, 22, self.categories@);
            grow_vec::<VEvent, P_comment, _>(self.l23(), m, fs, 23, self.comment@);
            grow_vec::<VEvent, P_contact, _>(self.l24(), m, fs, 24, self.contact@);
            grow_list::<VEvent, P_exdate, _>(self.l25(), m, fs, 25, self.exdate@);
            grow_vec::<VEvent, P_rstatus, _>(self.l26(), m, fs, 26, self.rstatus@);
            grow_vec::<VEvent, P_related_to, _>(self.l27(), m, fs, 27, self.related_to@);
            grow_list::<VEvent, P_resources, _>(self.l28(), m, fs, 28, self.resources@);
            grow_vec::<VEvent, P_rdate, _>(self.l29(), m, fs, 29, self.rdate@);
            grow_map::<VEvent>(self.l30(), m, fs, 30, self.x_prop@);
            grow_map::<VEvent>(self.l31(), m, fs, 31, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !VEvent::unreadable(ls), forall|v: VEvent| #[trigger] VEvent::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(VEvent::fields_fit); reveal(VEvent::same_fields); VEvent::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<VEvent>(self.l32(), "VEVENT"@, self.parts());
            let fs = self.parts();
            assert(sel::<VEvent>(lines_of(ls), 0) == fs[0]); assert(sel::<VEvent>(lines_of(ls), 1) == fs[1]); assert(sel::<VEvent>(lines_of(ls), 2) == fs[2]); assert(sel::<VEvent>(lines_of(ls), 3) == fs[3]); assert(sel::<VEvent>(lines_of(ls), 4) == fs[4]); assert(sel::<VEvent>(lines_of(ls), 5) == fs[5]); assert(sel::<VEvent>(lines_of(ls), 6) == fs[6]); assert(sel::<VEvent>(lines_of(ls), 7) == fs[7]); assert(sel::<VEvent>(lines_of(ls), 8) == fs[8]); assert(sel::<VEvent>(lines_of(ls), 9) == fs[9]); assert(sel::<VEvent>(lines_of(ls), 10) == fs[10]); assert(sel::<VEvent>(lines_of(ls), 11) == fs[11]); assert(sel::<VEvent>(lines_of(ls), 12) == fs[12]); assert(sel::<VEvent>(lines_of(ls), 13) == fs[13]); assert(sel::<VEvent>(lines_of(ls), 14) == fs[14]); assert(sel::<VEvent>(lines_of(ls), 15) == fs[15]); assert(sel::<VEvent>(lines_of(ls), 16) == fs[16]); assert(sel::<VEvent>(lines_of(ls), 17) == fs[17]); assert(sel::<VEvent>(lines_of(ls), 18) == fs[18]); assert(sel::<VEvent>(lines_of(ls), 19) == fs[19]); assert(sel::<VEvent>(lines_of(ls), 20) == fs[20]); assert(sel::<VEvent>(lines_of(ls), 21) == fs[21]); assert(sel::<VEvent>(lines_of(ls), 22) == fs[22]); assert(sel::<VEvent>(lines_of(ls), 23) == fs[23]); assert(sel::<VEvent>(lines_of(ls), 24) == fs[24]); assert(sel::<VEvent>(lines_of(ls), 25) == fs[25]); assert(sel::<VEvent>(lines_of(ls), 26) == fs[26]); assert(sel::<VEvent>(lines_of(ls), 27) == fs[27]); assert(sel::<VEvent>(lines_of(ls), 28) == fs[28]); assert(sel::<VEvent>(lines_of(ls), 29) == fs[29]); assert(sel::<VEvent>(lines_of(ls), 30) == fs[30]); assert(sel::<VEvent>(lines_of(ls), 31) == fs[31]);
            read_req::<VEvent, P_dtstamp, _>(ls, 0, self.dtstamp);
            read_req::<VEvent, P_uid, _>(ls, 1, self.uid);
            read_req::<VEvent, P_dtstart, _>(ls, 2, self.dtstart);
            read_opt::<VEvent, P_class, _>(ls, 3, self.class);
            read_opt::<VEvent, P_created, _>(ls, 4, self.created);
            read_opt::<VEvent, P_description, _>(ls, 5, self.description);
            read_opt::<VEvent, P_geo, _>(ls, 6, self.geo);
            read_opt::<VEvent, P_last_modified, _>(ls, 7, self.last_modified);
            read_opt::<VEvent, P_location, _>(ls, 8, self.location);
            read_opt::<VEvent, P_organizer, _>(ls, 9, self.organizer);
            read_opt::<VEvent, P_priority, _>(ls, 10, self.priority);
            read_opt::<VEvent, P_sequence, _>(ls, 11, self.sequence);
            read_opt::<VEvent, P_status, _>(ls, 12, self.status);
            read_opt::<VEvent, P_summary, _>(ls, 13, self.summary);
            read_opt::<VEvent, P_transp, _>(ls, 14, self.transp);
            read_opt::<VEvent, P_url, _>(ls, 15, self.url);
            read_opt::<VEvent, P_recurid, _>(ls, 16, self.recurid);
            read_opt::<VEvent, P_rrule, _>(ls, 17, self.rrule);
            read_opt::<VEvent, P_dtend, _>(ls, 18, self.dtend);
            read_opt::<VEvent, P_duration, _>(ls, 19, self.duration);
            read_vec::<VEvent, P_attach, _>(ls, 20, self.attach@);
            read_vec::<VEvent, P_attendee, _>(ls, 21, self.attendee@);
            read_list::<VEvent, P_categories, _>(ls, 22, self.categories@);
            read_vec::<VEvent, P_comment, _>(ls, 23, self.comment@);
            read_vec::<VEvent, P_contact, _>(ls, 24, self.contact@);
            read_list::<VEvent, P_exdate, _>(ls, 25, self.exdate@);
            read_vec::<VEvent, P_rstatus, _>(ls, 26, self.rstatus@);
            read_vec::<VEvent, P_related_to, _>(ls, 27, self.related_to@);
            read_list::<VEvent, P_resources, _>(ls, 28, self.resources@);
            read_vec::<VEvent, P_rdate, _>(ls, 29, self.rdate@);
            assert forall|v: VEvent| #[trigger] VEvent::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<VEvent>(ls, 30, |k: Seq<char>| !VEvent::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<VEvent>(ls, 31, |k: Seq<char>| !VEvent::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for VFreebusy {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if VFreebusy::tag(k) >= 0 { VFreebusy::tag(k) } else if is_x(k) { 11 } else { 12 } }
    }
    impl VFreebusy {
        pub proof fn tagged_all() ensures tagged::<VFreebusy, P_dtstamp>(0), tagged::<VFreebusy, P_uid>(1), tagged::<VFreebusy, P_contact>(2), tagged::<VFreebusy, P_dtstart>(3), tagged::<VFreebusy, P_dtend>(4), tagged::<VFreebusy, P_organizer>(5), tagged::<VFreebusy, P_url>(6), tagged::<VFreebusy, P_attendee>(7), tagged::<VFreebusy, P_comment>(8), tagged::<VFreebusy, P_freebusy>(9), tagged::<VFreebusy, P_rstatus>(10),
            forall|k: Seq<char>| (#[trigger] VFreebusy::tagx(k) == 11) == (!VFreebusy::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] VFreebusy::tagx(k) == 12) == (!VFreebusy::known(k) && !is_x(k)),
        { reveal(VFreebusy::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("CONTACT"); reveal_strlit("DTSTART"); reveal_strlit("DTEND"); reveal_strlit("ORGANIZER"); reveal_strlit("URL"); reveal_strlit("ATTENDEE"); reveal_strlit("COMMENT"); reveal_strlit("FREEBUSY"); reveal_strlit("RSTATUS"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("DTSTAMP"@, just(self.dtstamp)) } else if i == 1 { each("UID"@, just(self.uid)) } else if i == 2 { each("CONTACT"@, maybe(self.contact)) } else if i == 3 { each("DTSTART"@, maybe(self.dtstart)) } else if i == 4 { each("DTEND"@, maybe(self.dtend)) } else if i == 5 { each("ORGANIZER"@, maybe(self.organizer)) } else if i == 6 { each("URL"@, maybe(self.url)) } else if i == 7 { each("ATTENDEE"@, self.attendee@) } else if i == 8 { each("COMMENT"@, self.comment@) } else if i == 9 { chunks("FREEBUSY"@, cut(self.freebusy@)) } else if i == 10 { each("RSTATUS"@, self.rstatus@) } else if i == 11 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(13, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 13, self.parts()[0] == each("DTSTAMP"@, just(self.dtstamp)), self.parts()[1] == each("UID"@, just(self.uid)), self.parts()[2] == each("CONTACT"@, maybe(self.contact)), self.parts()[3] == each("DTSTART"@, maybe(self.dtstart)), self.parts()[4] == each("DTEND"@, maybe(self.dtend)), self.parts()[5] == each("ORGANIZER"@, maybe(self.organizer)), self.parts()[6] == each("URL"@, maybe(self.url)), self.parts()[7] == each("ATTENDEE"@, self.attendee@), self.parts()[8] == each("COMMENT"@, self.comment@), self.parts()[9] == chunks("FREEBUSY"@, cut(self.freebusy@)), self.parts()[10] == each("RSTATUS"@, self.rstatus@), self.parts()[11] == mapped(self.x_prop@), self.parts()[12] == mapped(self.iana_prop@)
        { reveal(VFreebusy::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_dtstamp, _>(just(self.dtstamp))
            &&& can_all::<P_uid, _>(just(self.uid))
            &&& can_all::<P_contact, _>(maybe(self.contact))
            &&& can_all::<P_dtstart, _>(maybe(self.dtstart))
            &&& can_all::<P_dtend, _>(maybe(self.dtend))
            &&& can_all::<P_organizer, _>(maybe(self.organizer))
            &&& can_all::<P_url, _>(maybe(self.url))
            &&& can_all::<P_attendee, _>(self.attendee@)
            &&& can_all::<P_comment, _>(self.comment@)
            &&& all_fit(self.freebusy@)
            &&& can_all::<P_rstatus, _>(self.rstatus@)
            &&& map_fit::<VFreebusy>(self.x_prop@, 11)
            &&& map_fit::<VFreebusy>(self.iana_prop@, 12)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &VFreebusy) -> bool {
            &&& self.dtstamp.same(&v.dtstamp)
            &&& self.uid.same(&v.uid)
            &&& same_opt(maybe(self.contact), v.contact)
            &&& same_opt(maybe(self.dtstart), v.dtstart)
            &&& same_opt(maybe(self.dtend), v.dtend)
            &&& same_opt(maybe(self.organizer), v.organizer)
            &&& same_opt(maybe(self.url), v.url)
            &&& all_same(self.attendee@, v.attendee@)
            &&& all_same(self.comment@, v.comment@)
            &&& all_same(self.freebusy@, v.freebusy@)
            &&& all_same(self.rstatus@, v.rstatus@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<VFreebusy>(self.l13(), "VFREEBUSY"@, self.parts(), 13), self.parts().len() == 13
        {
            reveal(VFreebusy::fields_fit); VFreebusy::tagged_all(); self.lemma_parts();
            let (m, fs) = ("VFREEBUSY"@, self.parts());
            lemma_begun::<VFreebusy>(m, fs);
            grow_req::<VFreebusy, P_dtstamp, _>(self.l0(), m, fs, 0, self.dtstamp);
            grow_req::<VFreebusy, P_uid, _>(self.l1(), m, fs, 1, self.uid);
            grow_opt::<VFreebusy, P_contact, _>(self.l2(), m, fs, 2, self.contact);
            grow_opt::<VFreebusy, P_dtstart, _>(self.l3(), m, fs, 3, self.dtstart);
            grow_opt::<VFreebusy, P_dtend, _>(self.l4(), m, fs, 4, self.dtend);
            grow_opt::<VFreebusy, P_organizer, _>(self.l5(), m, fs, 5, self.organizer);
            grow_opt::<VFreebusy, P_url, _>(self.l6(), m, fs, 6, self.url);
            grow_vec::<VFreebusy, P_attendee, _>(self.l7(), m, fs, 7, self.attendee@);
            grow_vec::<VFreebusy, P_comment, _>(self.l8(), m, fs, 8, self.comment@);
            grow_list::<VFreebusy, P_freebusy, _>(self.l9(), m, fs, 9, self.freebusy@);
            grow_vec::<VFreebusy, P_rstatus, _>(self.l10(), m, fs, 10, self.rstatus@);
            grow_map::<VFreebusy>(self.l11(), m, fs, 11, self.x_prop@);
            grow_map::<VFreebusy>(self.l12(), m, fs, 12, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !VFreebusy::unreadable(ls), forall|v: VFreebusy| #[trigger] VFreebusy::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(VFreebusy::fields_fit); reveal(VFreebusy::same_fields); VFreebusy::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<VFreebusy>(self.l13(), "VFREEBUSY"@, self.parts());
            let fs = self.parts();
            assert(sel::<VFreebusy>(lines_of(ls), 0) == fs[0]); assert(sel::<VFreebusy>(lines_of(ls), 1) == fs[1]); assert(sel::<VFreebusy>(lines_of(ls), 2) == fs[2]); assert(sel::<VFreebusy>(lines_of(ls), 3) == fs[3]); assert(sel::<VFreebusy>(lines_of(ls), 4) == fs[4]); assert(sel::<VFreebusy>(lines_of(ls), 5) == fs[5]); assert(sel::<VFreebusy>(lines_of(ls), 6) == fs[6]); assert(sel::<VFreebusy>(lines_of(ls), 7) == fs[7]); assert(sel::<VFreebusy>(lines_of(ls), 8) == fs[8]); assert(sel::<VFreebusy>(lines_of(ls), 9) == fs[9]); assert(sel::<VFreebusy>(lines_of(ls), 10) == fs[10]); assert(sel::<VFreebusy>(lines_of(ls), 11) == fs[11]); assert(sel::<VFreebusy>(lines_of(ls), 12) == fs[12]);
            read_req::<VFreebusy, P_dtstamp, _>(ls, 0, self.dtstamp);
            read_req::<VFreebusy, P_uid, _>(ls, 1, self.uid);
            read_opt::<VFreebusy, P_contact, _>(ls, 2, self.contact);
            read_opt::<VFreebusy, P_dtstart, _>(ls, 3, self.dtstart);
            read_opt::<VFreebusy, P_dtend, _>(ls, 4, self.dtend);
            read_opt::<VFreebusy, P_organizer, _>(ls, 5, self.organizer);
            read_opt::<VFreebusy, P_url, _>(ls, 6, self.url);
            read_vec::<VFreebusy, P_attendee, _>(ls, 7, self.attendee@);
            read_vec::<VFreebusy, P_comment, _>(ls, 8, self.comment@);
            read_list::<VFreebusy, P_freebusy, _>(ls, 9, self.freebusy@);
            read_vec::<VFreebusy, P_rstatus, _>(ls, 10, self.rstatus@);
            assert forall|v: VFreebusy| #[trigger] VFreebusy::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<VFreebusy>(ls, 11, |k: Seq<char>| !VFreebusy::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<VFreebusy>(ls, 12, |k: Seq<char>| !VFreebusy::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for VJournal {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if VJournal::tag(k) >= 0 { VJournal::tag(k) } else if is_x(k) { 23 } else { 24 } }
    }
    impl VJournal {
        pub proof fn tagged_all() ensures tagged::<VJournal, P_dtstamp>(0), tagged::<VJournal, P_uid>(1), tagged::<VJournal, P_class>(2), tagged::<VJournal, P_created>(3), tagged::<VJournal, P_dtstart>(4), tagged::<VJournal, P_last_modified>(5), tagged::<VJournal, P_organizer>(6), tagged::<VJournal, P_recurid>(7), tagged::<VJournal, P_sequence>(8), tagged::<VJournal, P_status>(9), tagged::<VJournal, P_summary>(10), tagged::<VJournal, P_url>(11), tagged::<VJournal, P_rrule>(12), tagged::<VJournal, P_attach>(13), tagged::<VJournal, P_attendee>(14), tagged::<VJournal, P_categories>(15), tagged::<VJournal, P_comment>(16), tagged::<VJournal, P_contact>(17), tagged::<VJournal, P_description>(18), tagged::<VJournal, P_exdate>(19), tagged::<VJournal, P_related_to>(20), tagged::<VJournal, P_rdate>(21), tagged::<VJournal, P_rstatus>(22),
            forall|k: Seq<char>| (#[trigger] VJournal::tagx(k) == 23) == (!VJournal::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] VJournal::tagx(k) == 24) == (!VJournal::known(k) && !is_x(k)),
        { reveal(VJournal::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("CLASS"); reveal_strlit("CREATED"); reveal_strlit("DTSTART"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("ORGANIZER"); reveal_strlit("RECURID"); reveal_strlit("SEQUENCE"); reveal_strlit("STATUS"); reveal_strlit("SUMMARY"); reveal_strlit("URL"); reveal_strlit("RRULE"); reveal_strlit("ATTACH"); reveal_strlit("ATTENDEE"); reveal_strlit("CATEGORIES"); reveal_strlit("COMMENT"); reveal_strlit("CONTACT"); reveal_strlit("DESCRIPTION"); reveal_strlit("EXDATE"); reveal_strlit("RELATED-TO"); reveal_strlit("RDATE"); reveal_strlit("RSTATUS"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("DTSTAMP"@, just(self.dtstamp)) } else if i == 1 { each("UID"@, just(self.uid)) } else if i == 2 { each("CLASS"@, maybe(self.class)) } else if i == 3 { each("CREATED"@, maybe(self.created)) } else if i == 4 { each("DTSTART"@, just(self.dtstart)) } else if i == 5 { each("LAST-MODIFIED"@, maybe(self.last_modified)) } else if i == 6 { each("ORGANIZER"@, maybe(self.organizer)) } else if i == 7 { each("RECURID"@, maybe(self.recurid)) } else if i == 8 { each("SEQUENCE"@, maybe(self.sequence)) } else if i == 9 { each("STATUS"@, maybe(self.status)) } else if i == 10 { each("SUMMARY"@, maybe(self.summary)) } else if i == 11 { each("URL"@, maybe(self.url)) } else if i == 12 { each("RRULE"@, maybe(self.rrule)) } else if i == 13 { each("ATTACH"@, self.attach@) } else if i == 14 { each("ATTENDEE"@, self.attendee@) } else if i == 15 { chunks("CATEGORIES"@, cut(self.categories@)) } else if i == 16 { each("COMMENT"@, self.comment@) } else if i == 17 { each("CONTACT"@, self.contact@) } else if i == 18 { each("DESCRIPTION"@, self.description@) } else if i == 19 { chunks("EXDATE"@, cut(self.exdate@)) } else if i == 20 { each("RELATED-TO"@, self.related_to@) } else if i == 21 { each("RDATE"@, self.rdate@) } else if i == 22 { each("RSTATUS"@, self.rstatus@) } else if i == 23 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(25, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 25, self.parts()[0] == each("DTSTAMP"@, just(self.dtstamp)), self.parts()[1] == each("UID"@, just(self.uid)), self.parts()[2] == each("CLASS"@, maybe(self.class)), self.parts()[3] == each("CREATED"@, maybe(self.created)), self.parts()[4] == each("DTSTART"@, just(self.dtstart)), self.parts()[5] == each("LAST-MODIFIED"@, maybe(self.last_modified)), self.parts()[6] == each("ORGANIZER"@, maybe(self.organizer)), self.parts()[7] == each("RECURID"@, maybe(self.recurid)), self.parts()[8] == each("SEQUENCE"@, maybe(self.sequence)), self.parts()[9] == each("STATUS"@, maybe(self.status)), self.parts()[10] == each("SUMMARY"@, maybe(self.summary)), self.parts()[11] == each("URL"@, maybe(self.url)), self.parts()[12] == each("RRULE"@, maybe(self.rrule)), self.parts()[13] == each("ATTACH"@, self.attach@), self.parts()[14] == each("ATTENDEE"@, self.attendee@), self.parts()[15] == chunks("CATEGORIES"@, cut(self.categories@)), self.parts()[16] == each("COMMENT"@, self.comment@), self.parts()[17] == each("CONTACT"@, self.contact@), self.parts()[18] == each("DESCRIPTION"@, self.description@), self.parts()[19] == chunks("EXDATE"@, cut(self.exdate@)), self.parts()[20] == each("RELATED-TO"@, self.related_to@), self.parts()[21] == each("RDATE"@, self.rdate@), self.parts()[22] == each("RSTATUS"@, self.rstatus@), self.parts()[23] == mapped(self.x_prop@), self.parts()[24] == mapped(self.iana_prop@)
        { reveal(VJournal::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_dtstamp, _>(just(self.dtstamp))
            &&& can_all::<P_uid, _>(just(self.uid))
            &&& can_all::<P_class, _>(maybe(self.class))
            &&& can_all::<P_created, _>(maybe(self.created))
            &&& can_all::<P_dtstart, _>(just(self.dtstart))
            &&& can_all::<P_last_modified, _>(maybe(self.last_modified))
            &&& can_all::<P_organizer, _>(maybe(self.organizer))
            &&& can_all::<P_recurid, _>(maybe(self.recurid))
            &&& can_all::<P_sequence, _>(maybe(self.sequence))
            &&& can_all::<P_status, _>(maybe(self.status))
            &&& can_all::<P_summary, _>(maybe(self.summary))
            &&& can_all::<P_url, _>(maybe(self.url))
            &&& can_all::<P_rrule, _>(maybe(self.rrule))
            &&& can_all::<P_attach, _>(self.attach@)
            &&& can_all::<P_attendee, _>(self.attendee@)
            &&& all_fit(self.categories@)
            &&& can_all::<P_comment, _>(self.comment@)
            &&& can_all::<P_contact, _>(self.contact@)
            &&& can_all::<P_description, _>(self.description@)
            &&& all_fit(self.exdate@)
            &&& can_all::<P_related_to, _>(self.related_to@)
            &&& can_all::<P_rdate, _>(self.rdate@)
            &&& can_all::<P_rstatus, _>(self.rstatus@)
            &&& map_fit::<VJournal>(self.x_prop@, 23)
            &&& map_fit::<VJournal>(self.iana_prop@, 24)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &VJournal) -> bool {
            &&& self.dtstamp.same(&v.dtstamp)
            &&& self.uid.same(&v.uid)
            &&& same_opt(maybe(self.class), v.class)
            &&& same_opt(maybe(self.created), v.created)
            &&& self.dtstart.same(&v.dtstart)
            &&& same_opt(maybe(self.last_modified), v.last_modified)
            &&& same_opt(maybe(self.organizer), v.organizer)
            &&& same_opt(maybe(self.recurid), v.recurid)
            &&& same_opt(maybe(self.sequence), v.sequence)
            &&& same_opt(maybe(self.status), v.status)
            &&& same_opt(maybe(self.summary), v.summary)
            &&& same_opt(maybe(self.url), v.url)
            &&& same_opt(maybe(self.rrule), v.rrule)
            &&& all_same(self.attach@, v.attach@)
            &&& all_same(self.attendee@, v.attendee@)
            &&& all_same(self.categories@, v.categories@)
            &&& all_same(self.comment@, v.comment@)
            &&& all_same(self.contact@, v.contact@)
            &&& all_same(self.description@, v.description@)
            &&& all_same(self.exdate@, v.exdate@)
            &&& all_same(self.related_to@, v.related_to@)
            &&& all_same(self.rdate@, v.rdate@)
            &&& all_same(self.rstatus@, v.rstatus@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<VJournal>(self.l25(), "VJOURNAL"@, self.parts(), 25), self.parts().len() == 25
        {
            reveal(VJournal::fields_fit); VJournal::tagged_all(); self.lemma_parts();
            let (m, fs) = ("VJOURNAL"@, self.parts());
            lemma_begun::<VJournal>(m, fs);
            grow_req::<VJournal, P_dtstamp, _>(self.l0(), m, fs, 0, self.dtstamp);
            grow_req::<VJournal, P_uid, _>(self.l1(), m, fs, 1, self.uid);
            grow_opt::<VJournal, P_class, _>(self.l2(), m, fs, 2, self.class);
            grow_opt::<VJournal, P_created, _>(self.l3(), m, fs, 3, self.created);
            grow_req::<VJournal, P_dtstart, _>(self.l4(), m, fs, 4, self.dtstart);
            grow_opt::<VJournal, P_last_modified, _>(self.l5(), m, fs, 5, self.last_modified);
            grow_opt::<VJournal, P_organizer, _>(self.l6(), m, fs, 6, self.organizer);
            grow_opt::<VJournal, P_recurid, _>(self.l7(), m, fs, 7, self.recurid);
            grow_opt::<VJournal, P_sequence, _>(self.l8(), m, fs, 8, self.sequence);
            grow_opt::<VJournal, P_status, _>(self.l9(), m, fs, 9, self.status);
            grow_opt::<VJournal, P_summary, _>(self.l10(), m, fs, 10, self.summary);
            grow_opt::<VJournal, P_url, _>(self.l11(), m, fs, 11, self.url);
            grow_opt::<VJournal, P_rrule, _>(self.l12(), m, fs, 12, self.rrule);
            grow_vec::<VJournal, P_attach, _>(self.l13(), m, fs, 13, self.attach@);
            grow_vec::<VJournal, P_attendee, _>(self.l14(), m, fs, 14, self.attendee@);
            grow_list::<VJournal, P_categories, _>(self.l15(), m, fs, 15, self.categories@);
            grow_vec::<VJournal, P_comment, _>(self.l16(), m, fs, 16, self.comment@);
            grow_vec::<VJournal, P_contact, _>(self.l17(), m, fs, 17, self.contact@);
            grow_vec::<VJournal, P_description, _>(self.l18(), m, fs, 18, self.description@);
            grow_list::<VJournal, P_exdate, _>(self.l19(), m, fs, 19, self.exdate@);
            grow_vec::<VJournal, P_related_to, _>(self.l20(), m, fs, 20, self.related_to@);
            grow_vec::<VJournal, P_rdate, _>(self.l21(), m, fs, 21, self.rdate@);
            grow_vec::<VJournal, P_rstatus, _>(self.l22(), m, fs, 22, self.rstatus@);
            grow_map::<VJournal>(self.l23(), m, fs, 23, self.x_prop@);
            grow_map::<VJournal>(self.l24(), m, fs, 24, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !VJournal::unreadable(ls), forall|v: VJournal| #[trigger] VJournal::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(VJournal::fields_fit); reveal(VJournal::same_fields); VJournal::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<VJournal>(self.l25(), "VJOURNAL"@, self.parts());
            let fs = self.parts();
            assert(sel::<VJournal>(lines_of(ls), 0) == fs[0]); assert(sel::<VJournal>(lines_of(ls), 1) == fs[1]); assert(sel::<VJournal>(lines_of(ls), 2) == fs[2]); assert(sel::<VJournal>(lines_of(ls), 3) == fs[3]); assert(sel::<VJournal>(lines_of(ls), 4) == fs[4]); assert(sel::<VJournal>(lines_of(ls), 5) == fs[5]); assert(sel::<VJournal>(lines_of(ls), 6) == fs[6]); assert(sel::<VJournal>(lines_of(ls), 7) == fs[7]); assert(sel::<VJournal>(lines_of(ls), 8) == fs[8]); assert(sel::<VJournal>(lines_of(ls), 9) == fs[9]); assert(sel::<VJournal>(lines_of(ls), 10) == fs[10]); assert(sel::<VJournal>(lines_of(ls), 11) == fs[11]); assert(sel::<VJournal>(lines_of(ls), 12) == fs[12]); assert(sel::<VJournal>(lines_of(ls), 13) == fs[13]); assert(sel::<VJournal>(lines_of(ls), 14) == fs[14]); assert(sel::<VJournal>(lines_of(ls), 15) == fs[15]); assert(sel::<VJournal>(lines_of(ls), 16) == fs[16]); assert(sel::<VJournal>(lines_of(ls), 17) == fs[17]); assert(sel::<VJournal>(lines_of(ls), 18) == fs[18]); assert(sel::<VJournal>(lines_of(ls), 19) == fs[19]); assert(sel::<VJournal>(lines_of(ls), 20) == fs[20]); assert(sel::<VJournal>(lines_of(ls), 21) == fs[21]); assert(sel::<VJournal>(lines_of(ls), 22) == fs[22]); assert(sel::<VJournal>(lines_of(ls), 23) == fs[23]); assert(sel::<VJournal>(lines_of(ls), 24) == fs[24]);
            read_req::<VJournal, P_dtstamp, _>(ls, 0, self.dtstamp);
            read_req::<VJournal, P_uid, _>(ls, 1, self.uid);
            read_opt::<VJournal, P_class, _>(ls, 2, self.class);
            read_opt::<VJournal, P_created, _>(ls, 3, self.created);
            read_req::<VJournal, P_dtstart, _>(ls, 4, self.dtstart);
            read_opt::<VJournal, P_last_modified, _>(ls, 5, self.last_modified);
            read_opt::<VJournal, P_organizer, _>(ls, 6, self.organizer);
            read_opt::<VJournal, P_recurid, _>(ls, 7, self.recurid);
            read_opt::<VJournal, P_sequence, _>(ls, 8, self.sequence);
            read_opt::<VJournal, P_status, _>(ls, 9, self.status);
            read_opt::<VJournal, P_summary, _>(ls, 10, self.summary);
            read_opt::<VJournal, P_url, _>(ls, 11, self.url);
            read_opt::<VJournal, P_rrule, _>(ls, 12, self.rrule);
            read_vec::<VJournal, P_attach, _>(ls, 13, self.attach@);
            read_vec::<VJournal, P_attendee, _>(ls, 14, self.attendee@);
            read_list::<VJournal, P_categories, _>(ls, 15, self.categories@);
            read_vec::<VJournal, P_comment, _>(ls, 16, self.comment@);
            read_vec::<VJournal, P_contact, _>(ls, 17, self.contact@);
            read_vec::<VJournal, P_description, _>(ls, 18, self.description@);
            read_list::<VJournal, P_exdate, _>(ls, 19, self.exdate@);
            read_vec::<VJournal, P_related_to, _>(ls, 20, self.related_to@);
            read_vec::<VJournal, P_rdate, _>(ls, 21, self.rdate@);
            read_vec::<VJournal, P_rstatus, _>(ls, 22, self.rstatus@);
            assert forall|v: VJournal| #[trigger] VJournal::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<VJournal>(ls, 23, |k: Seq<char>| !VJournal::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<VJournal>(ls, 24, |k: Seq<char>| !VJournal::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for VTodo {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if VTodo::tag(k) >= 0 { VTodo::tag(k) } else if is_x(k) { 30 } else { 31 } }
    }
    impl VTodo {
        pub proof fn tagged_all() ensures tagged::<VTodo, P_dtstamp>(0), tagged::<VTodo, P_uid>(1), tagged::<VTodo, P_class>(2), tagged::<VTodo, P_completed>(3), tagged::<VTodo, P_created>(4), tagged::<VTodo, P_dtstart>(5), tagged::<VTodo, P_geo>(6), tagged::<VTodo, P_last_modified>(7), tagged::<VTodo, P_location>(8), tagged::<VTodo, P_organizer>(9), tagged::<VTodo, P_percent_complete>(10), tagged::<VTodo, P_priority>(11), tagged::<VTodo, P_recurid>(12), tagged::<VTodo, P_sequence>(13), tagged::<VTodo, P_status>(14), tagged::<VTodo, P_summary>(15), tagged::<VTodo, P_url>(16), tagged::<VTodo, P_rrule>(17), tagged::<VTodo, P_due>(18), tagged::<VTodo, P_duration>(19), tagged::<VTodo, P_attach>(20), tagged::<VTodo, P_attendee>(21), tagged::<VTodo, P_categories>(22), tagged::<VTodo, P_comment>(23), tagged::<VTodo, P_contact>(24), tagged::<VTodo, P_exdate>(25), tagged::<VTodo, P_rstatus>(26), tagged::<VTodo, P_related_to>(27), tagged::<VTodo, P_resources>(28), tagged::<VTodo, P_rdate>(29),
            forall|k: Seq<char>| (#[trigger] VTodo::tagx(k) == 30) == (!VTodo::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] VTodo::tagx(k) == 31) == (!VTodo::known(k) && !is_x(k)),
        { reveal(VTodo::tag); reveal_strlit("DTSTAMP"); reveal_strlit("UID"); reveal_strlit("CLASS"); reveal_strlit("COMPLETED"); reveal_strlit("CREATED"); reveal_strlit("DTSTART"); reveal_strlit("GEO"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("LOCATION"); reveal_strlit("ORGANIZER"); reveal_strlit("PERCENT-COMPLETE"); reveal_strlit("PRIORITY"); reveal_strlit("RECURID"); reveal_strlit("SEQUENCE"); reveal_strlit("STATUS"); reveal_strlit("SUMMARY"); reveal_strlit("URL"); reveal_strlit("RRULE"); reveal_strlit("DUE"); reveal_strlit("DURATION"); reveal_strlit("ATTACH"); reveal_strlit("ATTENDEE"); reveal_strlit("CATEGORIES"); reveal_strlit("COMMENT"); reveal_strlit("CONTACT"); reveal_strlit("EXDATE"); reveal_strlit("RSTATUS"); reveal_strlit("RELATED-TO"); reveal_strlit("RESOURCES"); reveal_strlit("RDATE"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("DTSTAMP"@, just(self.dtstamp)) } else if i == 1 { each("UID"@, just(self.uid)) } else if i == 2 { each("CLASS"@, maybe(self.class)) } else if i == 3 { each("COMPLETED"@, maybe(self.completed)) } else if i == 4 { each("CREATED"@, maybe(self.created)) } else if i == 5 { each("DTSTART"@, maybe(self.dtstart)) } else if i == 6 { each("GEO"@, maybe(self.geo)) } else if i == 7 { each("LAST-MODIFIED"@, maybe(self.last_modified)) } else if i == 8 { each("LOCATION"@, maybe(self.location)) } else if i == 9 { each("ORGANIZER"@, maybe(self.organizer)) } else if i == 10 { each("PERCENT-COMPLETE"@, maybe(self.percent_complete)) } else if i == 11 { each("PRIORITY"@, maybe(self.priority)) } else if i == 12 { each("RECURID"@, maybe(self.recurid)) } else if i == 13 { each("SEQUENCE"@, maybe(self.sequence)) } else if i == 14 { each("STATUS"@, maybe(self.status)) } else if i == 15 { each("SUMMARY"@, maybe(self.summary)) } else if i == 16 { each("URL"@, maybe(self.url)) } else if i == 17 { each("RRULE"@, maybe(self.rrule)) } else if i == 18 { each("DUE"@, maybe(self.due)) } else if i == 19 { each("DURATION"@, maybe(self.duration)) } else if i == 20 { each("ATTACH"@, self.attach@) } else if i == 21 { each("ATTENDEE"@, self.attendee@) } else if i == 22 { chunks("CATEGORIES"@, cut(self.categories@)) } else if i == 23 { each("COMMENT"@, self.comment@) } else if i == 24 { each("CONTACT"@, self.contact@) } else if i == 25 { chunks("EXDATE"@, cut(self.exdate@)) } else if i == 26 { each("RSTATUS"@, self.rstatus@) } else if i == 27 { each("RELATED-TO"@, self.related_to@) } else if i == 28 { chunks("RESOURCES"@, cut(self.resources@)) } else if i == 29 { each("RDATE"@, self.rdate@) } else if i == 30 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(32, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 32, self.parts()[0] == each("DTSTAMP"@, just(self.dtstamp)), self.parts()[1] == each("UID"@, just(self.uid)), self.parts()[2] == each("CLASS"@, maybe(self.class)), self.parts()[3] == each("COMPLETED"@, maybe(self.completed)), self.parts()[4] == each("CREATED"@, maybe(self.created)), self.parts()[5] == each("DTSTART"@, maybe(self.dtstart)), self.parts()[6] == each("GEO"@, maybe(self.geo)), self.parts()[7] == each("LAST-MODIFIED"@, maybe(self.last_modified)), self.parts()[8] == each("LOCATION"@, maybe(self.location)), self.parts()[9] == each("ORGANIZER"@, maybe(self.organizer)), self.parts()[10] == each("PERCENT-COMPLETE"@, maybe(self.percent_complete)), self.parts()[11] == each("PRIORITY"@, maybe(self.priority)), self.parts()[12] == each("RECURID"@, maybe(self.recurid)), self.parts()[13] == each("SEQUENCE"@, maybe(self.sequence)), self.parts()[14] == each("STATUS"@, maybe(self.status)), self.parts()[15] == each("SUMMARY"@, maybe(self.summary)), self.parts()[16] == each("URL"@, maybe(self.url)), self.parts()[17] == each("RRULE"@, maybe(self.rrule)), self.parts()[18] == each("DUE"@, maybe(self.due)), self.parts()[19] == each("DURATION"@, maybe(self.duration)), self.parts()[20] == each("ATTACH"@, self.attach@), self.parts()[21] == each("ATTENDEE"@, self.attendee@), self.parts()[22] == chunks("CATEGORIES"@, cut(self.categories@)), self.parts()[23] == each("COMMENT"@, self.comment@), self.parts()[24] == each("CONTACT"@, self.contact@), self.parts()[25] == chunks("EXDATE"@, cut(self.exdate@)), self.parts()[26] == each("RSTATUS"@, self.rstatus@), self.parts()[27] == each("RELATED-TO"@, self.related_to@), self.parts()[28] == chunks("RESOURCES"@, cut(self.resources@)), self.parts()[29] == each("RDATE"@, self.rdate@), self.parts()[30] == mapped(self.x_prop@), self.parts()[31] == mapped(self.iana_prop@)
        { reveal(VTodo::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_dtstamp, _>(just(self.dtstamp))
            &&& can_all::<P_uid, _>(just(self.uid))
            &&& can_all::<P_class, _>(maybe(self.class))
            &&& can_all::<P_completed, _>(maybe(self.completed))
            &&& can_all::<P_created, _>(maybe(self.created))
            &&& can_all::<P_dtstart, _>(maybe(self.dtstart))
            &&& can_all::<P_geo, _>(maybe(self.geo))
            &&& can_all::<P_last_modified, _>(maybe(self.last_modified))
            &&& can_all::<P_location, _>(maybe(self.location))
            &&& can_all::<P_organizer, _>(maybe(self.organizer))
            &&& can_all::<P_percent_complete, _>(maybe(self.percent_complete))
            &&& can_all::<P_priority, _>(maybe(self.priority))
            &&& can_all::<P_recurid, _>(maybe(self.recurid))
            &&& can_all::<P_sequence, _>(maybe(self.sequence))
            &&& can_all::<P_status, _>(maybe(self.status))
            &&& can_all::<P_summary, _>(maybe(self.summary))
            &&& can_all::<P_url, _>(maybe(self.url))
            &&& can_all::<P_rrule, _>(maybe(self.rrule))
            &&& can_all::<P_due, _>(maybe(self.due))
            &&& can_all::<P_duration, _>(maybe(self.duration))
            &&& can_all::<P_attach, _>(self.attach@)
            &&& can_all::<P_attendee, _>(self.attendee@)
            &&& all_fit(self.categories@)
            &&& can_all::<P_comment, _>(self.comment@)
            &&& can_all::<P_contact, _>(self.contact@)
            &&& all_fit(self.exdate@)
            &&& can_all::<P_rstatus, _>(self.rstatus@)
            &&& can_all::<P_related_to, _>(self.related_to@)
            &&& all_fit(self.resources@)
            &&& can_all::<P_rdate, _>(self.rdate@)
            &&& map_fit::<VTodo>(self.x_prop@, 30)
            &&& map_fit::<VTodo>(self.iana_prop@, 31)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &VTodo) -> bool {
            &&& self.dtstamp.same(&v.dtstamp)
            &&& self.uid.same(&v.uid)
            &&& same_opt(maybe(self.class), v.class)
            &&& same_opt(maybe(self.completed), v.completed)
            &&& same_opt(maybe(self.created), v.created)
            &&& same_opt(maybe(self.dtstart), v.dtstart)
            &&& same_opt(maybe(self.geo), v.geo)
            &&& same_opt(maybe(self.last_modified), v.last_modified)
            &&& same_opt(maybe(self.location), v.location)
            &&& same_opt(maybe(self.organizer), v.organizer)
            &&& same_opt(maybe(self.percent_complete), v.percent_complete)
            &&& same_opt(maybe(self.priority), v.priority)
            &&& same_opt(maybe(self.recurid), v.recurid)
            &&& same_opt(maybe(self.sequence), v.sequence)
            &&& same_opt(maybe(self.status), v.status)
            &&& same_opt(maybe(self.summary), v.summary)
            &&& same_opt(maybe(self.url), v.url)
            &&& same_opt(maybe(self.rrule), v.rrule)
            &&& same_opt(maybe(self.due), v.due)
            &&& same_opt(maybe(self.duration), v.duration)
            &&& all_same(self.attach@, v.attach@)
            &&& all_same(self.attendee@, v.attendee@)
            &&& all_same(self.categories@, v.categories@)
            &&& all_same(self.comment@, v.comment@)
            &&& all_same(self.contact@, v.contact@)
            &&& all_same(self.exdate@, v.exdate@)
            &&& all_same(self.rstatus@, v.rstatus@)
            &&& all_same(self.related_to@, v.related_to@)
            &&& all_same(self.resources@, v.resources@)
            &&& all_same(self.rdate@, v.rdate@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<VTodo>(self.l32(), "VTODO"@, self.parts(), 32), self.parts().len() == 32
        {
            reveal(VTodo::fields_fit); VTodo::tagged_all(); self.lemma_parts();
            let (m, fs) = ("VTODO"@, self.parts());
            lemma_begun::<VTodo>(m, fs);
            grow_req::<VTodo, P_dtstamp, _>(self.l0(), m, fs, 0, self.dtstamp);
            grow_req::<VTodo, P_uid, _>(self.l1(), m, fs, 1, self.uid);
            grow_opt::<VTodo, P_class, _>(self.l2(), m, fs, 2, self.class);
            grow_opt::<VTodo, P_completed, _>(self.l3(), m, fs, 3, self.completed);
            grow_opt::<VTodo, P_created, _>(self.l4(), m, fs, 4, self.created);
            grow_opt::<VTodo, P_dtstart, _>(self.l5(), m, fs, 5, self.dtstart);
            grow_opt::<VTodo, P_geo, _>(self.l6(), m, fs, 6, self.geo);
            grow_opt::<VTodo, P_last_modified, _>(self.l7(), m, fs, 7, self.last_modified);
            grow_opt::<VTodo, P_location, _>(self.l8(), m, fs, 8, self.location);
            grow_opt::<VTodo, P_organizer, _>(self.l9(), m, fs, 9, self.organizer);
            grow_opt::<VTodo, P_percent_complete, _>(self.l10(), m, fs, 10, self.percent_complete);
            grow_opt::<VTodo, P_priority, _>(self.l11(), m, fs, 11, self.priority);
            grow_opt::<VTodo, P_recurid, _>(self.l12(), m, fs, 12, self.recurid);
            grow_opt::<VTodo, P_sequence, _>(self.l13(), m, fs, 13, self.sequence);
            grow_opt::<VTodo, P_status, _>(self.l14(), m, fs, 14, self.status);
            grow_opt::<VTodo, P_summary, _>(self.l15(), m, fs, 15, self.summary);
            grow_opt::<VTodo, P_url, _>(self.l16(), m, fs, 16, self.url);
            grow_opt::<VTodo, P_rrule, _>(self.l17(), m, fs, 17, self.rrule);
            grow_opt::<VTodo, P_due, _>(self.l18(), m, fs, 18, self.due);
            grow_opt::<VTodo, P_duration, _>(self.l19(), m, fs, 19, self.duration);
            grow_vec::<VTodo, P_attach, _>(self.l20(), m, fs, 20, self.attach@);
            grow_vec::<VTodo, P_attendee, _>(self.l21(), m, fs, 21, self.attendee@);
            grow_list::<VTodo, P_categories, _>(self.l22(), m, fs, 22, self.categories@);
            grow_vec::<VTodo, P_comment, _>(self.l23(), m, fs, 23, self.comment@);
            grow_vec::<VTodo, P_contact, _>(self.l24(), m, fs, 24, self.contact@);
            grow_list::<VTodo, P_exdate, _>(self.l25(), m, fs, 25, self.exdate@);
            grow_vec::<VTodo, P_rstatus, _>(self.l26(), m, fs, 26, self.rstatus@);
            grow_vec::<VTodo, P_related_to, _>(self.l27(), m, fs, 27, self.related_to@);
            grow_list::<VTodo, P_resources, _>(self.l28(), m, fs, 28, self.resources@);
            grow_vec::<VTodo, P_rdate, _>(self.l29(), m, fs, 29, self.rdate@);
            grow_map::<VTodo>(self.l30(), m, fs, 30, self.x_prop@);
            grow_map::<VTodo>(self.l31(), m, fs, 31, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !VTodo::unreadable(ls), forall|v: VTodo| #[trigger] VTodo::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(VTodo::fields_fit); reveal(VTodo::same_fields); VTodo::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<VTodo>(self.l32(), "VTODO"@, self.parts());
            let fs = self.parts();
            assert(sel::<VTodo>(lines_of(ls), 0) == fs[0]); assert(sel::<VTodo>(lines_of(ls), 1) == fs[1]); assert(sel::<VTodo>(lines_of(ls), 2) == fs[2]); assert(sel::<VTodo>(lines_of(ls), 3) == fs[3]); assert(sel::<VTodo>(lines_of(ls), 4) == fs[4]); assert(sel::<VTodo>(lines_of(ls), 5) == fs[5]); assert(sel::<VTodo>(lines_of(ls), 6) == fs[6]); assert(sel::<VTodo>(lines_of(ls), 7) == fs[7]); assert(sel::<VTodo>(lines_of(ls), 8) == fs[8]); assert(sel::<VTodo>(lines_of(ls), 9) == fs[9]); assert(sel::<VTodo>(lines_of(ls), 10) == fs[10]); assert(sel::<VTodo>(lines_of(ls), 11) == fs[11]); assert(sel::<VTodo>(lines_of(ls), 12) == fs[12]); assert(sel::<VTodo>(lines_of(ls), 13) == fs[13]); assert(sel::<VTodo>(lines_of(ls), 14) == fs[14]); assert(sel::<VTodo>(lines_of(ls), 15) == fs[15]); assert(sel::<VTodo>(lines_of(ls), 16) == fs[16]); assert(sel::<VTodo>(lines_of(ls), 17) == fs[17]); assert(sel::<VTodo>(lines_of(ls), 18) == fs[18]); assert(sel::<VTodo>(lines_of(ls), 19) == fs[19]); assert(sel::<VTodo>(lines_of(ls), 20) == fs[20]); assert(sel::<VTodo>(lines_of(ls), 21) == fs[21]); assert(sel::<VTodo>(lines_of(ls), 22) == fs[22]); assert(sel::<VTodo>(lines_of(ls), 23) == fs[23]); assert(sel::<VTodo>(lines_of(ls), 24) == fs[24]); assert(sel::<VTodo>(lines_of(ls), 25) == fs[25]); assert(sel::<VTodo>(lines_of(ls), 26) == fs[26]); assert(sel::<VTodo>(lines_of(ls), 27) == fs[27]); assert(sel::<VTodo>(lines_of(ls), 28) == fs[28]); assert(sel::<VTodo>(lines_of(ls), 29) == fs[29]); assert(sel::<VTodo>(lines_of(ls), 30) == fs[30]); assert(sel::<VTodo>(lines_of(ls), 31) == fs[31]);
            read_req::<VTodo, P_dtstamp, _>(ls, 0, self.dtstamp);
            read_req::<VTodo, P_uid, _>(ls, 1, self.uid);
            read_opt::<VTodo, P_class, _>(ls, 2, self.class);
            read_opt::<VTodo, P_completed, _>(ls, 3, self.completed);
            read_opt::<VTodo, P_created, _>(ls, 4, self.created);
            read_opt::<VTodo, P_dtstart, _>(ls, 5, self.dtstart);
            read_opt::<VTodo, P_geo, _>(ls, 6, self.geo);
            read_opt::<VTodo, P_last_modified, _>(ls, 7, self.last_modified);
            read_opt::<VTodo, P_location, _>(ls, 8, self.location);
            read_opt::<VTodo, P_organizer, _>(ls, 9, self.organizer);
            read_opt::<VTodo, P_percent_complete, _>(ls, 10, self.percent_complete);
            read_opt::<VTodo, P_priority, _>(ls, 11, self.priority);
            read_opt::<VTodo, P_recurid, _>(ls, 12, self.recurid);
            read_opt::<VTodo, P_sequence, _>(ls, 13, self.sequence);
            read_opt::<VTodo, P_status, _>(ls, 14, self.status);
            read_opt::<VTodo, P_summary, _>(ls, 15, self.summary);
            read_opt::<VTodo, P_url, _>(ls, 16, self.url);
            read_opt::<VTodo, P_rrule, _>(ls, 17, self.rrule);
            read_opt::<VTodo, P_due, _>(ls, 18, self.due);
            read_opt::<VTodo, P_duration, _>(ls, 19, self.duration);
            read_vec::<VTodo, P_attach, _>(ls, 20, self.attach@);
            read_vec::<VTodo, P_attendee, _>(ls, 21, self.attendee@);
            read_list::<VTodo, P_categories, _>(ls, 22, self.categories@);
            read_vec::<VTodo, P_comment, _>(ls, 23, self.comment@);
            read_vec::<VTodo, P_contact, _>(ls, 24, self.contact@);
            read_list::<VTodo, P_exdate, _>(ls, 25, self.exdate@);
            read_vec::<VTodo, P_rstatus, _>(ls, 26, self.rstatus@);
            read_vec::<VTodo, P_related_to, _>(ls, 27, self.related_to@);
            read_list::<VTodo, P_resources, _>(ls, 28, self.resources@);
            read_vec::<VTodo, P_rdate, _>(ls, 29, self.rdate@);
            assert forall|v: VTodo| #[trigger] VTodo::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<VTodo>(ls, 30, |k: Seq<char>| !VTodo::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<VTodo>(ls, 31, |k: Seq<char>| !VTodo::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for Audio {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if Audio::tag(k) >= 0 { Audio::tag(k) } else if is_x(k) { 5 } else { 6 } }
    }
    impl Audio {
        pub proof fn tagged_all() ensures tagged::<Audio, P_action>(0), tagged::<Audio, P_trigger>(1), tagged::<Audio, P_duration>(2), tagged::<Audio, P_repeat>(3), tagged::<Audio, P_attach>(4),
            forall|k: Seq<char>| (#[trigger] Audio::tagx(k) == 5) == (!Audio::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] Audio::tagx(k) == 6) == (!Audio::known(k) && !is_x(k)),
        { reveal(Audio::tag); reveal_strlit("ACTION"); reveal_strlit("TRIGGER"); reveal_strlit("DURATION"); reveal_strlit("REPEAT"); reveal_strlit("ATTACH"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("ACTION"@, just(self.action)) } else if i == 1 { each("TRIGGER"@, just(self.trigger)) } else if i == 2 { each("DURATION"@, maybe(self.duration)) } else if i == 3 { each("REPEAT"@, maybe(self.repeat)) } else if i == 4 { each("ATTACH"@, self.attach@) } else if i == 5 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(7, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 7, self.parts()[0] == each("ACTION"@, just(self.action)), self.parts()[1] == each("TRIGGER"@, just(self.trigger)), self.parts()[2] == each("DURATION"@, maybe(self.duration)), self.parts()[3] == each("REPEAT"@, maybe(self.repeat)), self.parts()[4] == each("ATTACH"@, self.attach@), self.parts()[5] == mapped(self.x_prop@), self.parts()[6] == mapped(self.iana_prop@)
        { reveal(Audio::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_action, _>(just(self.action))
            &&& can_all::<P_trigger, _>(just(self.trigger))
            &&& can_all::<P_duration, _>(maybe(self.duration))
            &&& can_all::<P_repeat, _>(maybe(self.repeat))
            &&& can_all::<P_attach, _>(self.attach@)
            &&& map_fit::<Audio>(self.x_prop@, 5)
            &&& map_fit::<Audio>(self.iana_prop@, 6)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &Audio) -> bool {
            &&& self.action.same(&v.action)
            &&& self.trigger.same(&v.trigger)
            &&& same_opt(maybe(self.duration), v.duration)
            &&& same_opt(maybe(self.repeat), v.repeat)
            &&& all_same(self.attach@, v.attach@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<Audio>(self.l7(), "AUDIO"@, self.parts(), 7), self.parts().len() == 7
        {
            reveal(Audio::fields_fit); Audio::tagged_all(); self.lemma_parts();
            let (m, fs) = ("AUDIO"@, self.parts());
            lemma_begun::<Audio>(m, fs);
            grow_req::<Audio, P_action, _>(self.l0(), m, fs, 0, self.action);
            grow_req::<Audio, P_trigger, _>(self.l1(), m, fs, 1, self.trigger);
            grow_opt::<Audio, P_duration, _>(self.l2(), m, fs, 2, self.duration);
            grow_opt::<Audio, P_repeat, _>(self.l3(), m, fs, 3, self.repeat);
            grow_vec::<Audio, P_attach, _>(self.l4(), m, fs, 4, self.attach@);
            grow_map::<Audio>(self.l5(), m, fs, 5, self.x_prop@);
            grow_map::<Audio>(self.l6(), m, fs, 6, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !Audio::unreadable(ls), forall|v: Audio| #[trigger] Audio::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(Audio::fields_fit); reveal(Audio::same_fields); Audio::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<Audio>(self.l7(), "AUDIO"@, self.parts());
            let fs = self.parts();
            assert(sel::<Audio>(lines_of(ls), 0) == fs[0]); assert(sel::<Audio>(lines_of(ls), 1) == fs[1]); assert(sel::<Audio>(lines_of(ls), 2) == fs[2]); assert(sel::<Audio>(lines_of(ls), 3) == fs[3]); assert(sel::<Audio>(lines_of(ls), 4) == fs[4]); assert(sel::<Audio>(lines_of(ls), 5) == fs[5]); assert(sel::<Audio>(lines_of(ls), 6) == fs[6]);
            read_req::<Audio, P_action, _>(ls, 0, self.action);
            read_req::<Audio, P_trigger, _>(ls, 1, self.trigger);
            read_opt::<Audio, P_duration, _>(ls, 2, self.duration);
            read_opt::<Audio, P_repeat, _>(ls, 3, self.repeat);
            read_vec::<Audio, P_attach, _>(ls, 4, self.attach@);
            assert forall|v: Audio| #[trigger] Audio::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<Audio>(ls, 5, |k: Seq<char>| !Audio::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<Audio>(ls, 6, |k: Seq<char>| !Audio::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for Display {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if Display::tag(k) >= 0 { Display::tag(k) } else if is_x(k) { 5 } else { 6 } }
    }
    impl Display {
        pub proof fn tagged_all() ensures tagged::<Display, P_action>(0), tagged::<Display, P_trigger>(1), tagged::<Display, P_description>(2), tagged::<Display, P_duration>(3), tagged::<Display, P_repeat>(4),
            forall|k: Seq<char>| (#[trigger] Display::tagx(k) == 5) == (!Display::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] Display::tagx(k) == 6) == (!Display::known(k) && !is_x(k)),
        { reveal(Display::tag); reveal_strlit("ACTION"); reveal_strlit("TRIGGER"); reveal_strlit("DESCRIPTION"); reveal_strlit("DURATION"); reveal_strlit("REPEAT"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("ACTION"@, just(self.action)) } else if i == 1 { each("TRIGGER"@, just(self.trigger)) } else if i == 2 { each("DESCRIPTION"@, just(self.description)) } else if i == 3 { each("DURATION"@, maybe(self.duration)) } else if i == 4 { each("REPEAT"@, maybe(self.repeat)) } else if i == 5 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(7, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 7, self.parts()[0] == each("ACTION"@, just(self.action)), self.parts()[1] == each("TRIGGER"@, just(self.trigger)), self.parts()[2] == each("DESCRIPTION"@, just(self.description)), self.parts()[3] == each("DURATION"@, maybe(self.duration)), self.parts()[4] == each("REPEAT"@, maybe(self.repeat)), self.parts()[5] == mapped(self.x_prop@), self.parts()[6] == mapped(self.iana_prop@)
        { reveal(Display::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_action, _>(just(self.action))
            &&& can_all::<P_trigger, _>(just(self.trigger))
            &&& can_all::<P_description, _>(just(self.description))
            &&& can_all::<P_duration, _>(maybe(self.duration))
            &&& can_all::<P_repeat, _>(maybe(self.repeat))
            &&& map_fit::<Display>(self.x_prop@, 5)
            &&& map_fit::<Display>(self.iana_prop@, 6)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &Display) -> bool {
            &&& self.action.same(&v.action)
            &&& self.trigger.same(&v.trigger)
            &&& self.description.same(&v.description)
            &&& same_opt(maybe(self.duration), v.duration)
            &&& same_opt(maybe(self.repeat), v.repeat)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<Display>(self.l7(), "DISPLAY"@, self.parts(), 7), self.parts().len() == 7
        {
            reveal(Display::fields_fit); Display::tagged_all(); self.lemma_parts();
            let (m, fs) = ("DISPLAY"@, self.parts());
            lemma_begun::<Display>(m, fs);
            grow_req::<Display, P_action, _>(self.l0(), m, fs, 0, self.action);
            grow_req::<Display, P_trigger, _>(self.l1(), m, fs, 1, self.trigger);
            grow_req::<Display, P_description, _>(self.l2(), m, fs, 2, self.description);
            grow_opt::<Display, P_duration, _>(self.l3(), m, fs, 3, self.duration);
            grow_opt::<Display, P_repeat, _>(self.l4(), m, fs, 4, self.repeat);
            grow_map::<Display>(self.l5(), m, fs, 5, self.x_prop@);
            grow_map::<Display>(self.l6(), m, fs, 6, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !Display::unreadable(ls), forall|v: Display| #[trigger] Display::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(Display::fields_fit); reveal(Display::same_fields); Display::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<Display>(self.l7(), "DISPLAY"@, self.parts());
            let fs = self.parts();
            assert(sel::<Display>(lines_of(ls), 0) == fs[0]); assert(sel::<Display>(lines_of(ls), 1) == fs[1]); assert(sel::<Display>(lines_of(ls), 2) == fs[2]); assert(sel::<Display>(lines_of(ls), 3) == fs[3]); assert(sel::<Display>(lines_of(ls), 4) == fs[4]); assert(sel::<Display>(lines_of(ls), 5) == fs[5]); assert(sel::<Display>(lines_of(ls), 6) == fs[6]);
            read_req::<Display, P_action, _>(ls, 0, self.action);
            read_req::<Display, P_trigger, _>(ls, 1, self.trigger);
            read_req::<Display, P_description, _>(ls, 2, self.description);
            read_opt::<Display, P_duration, _>(ls, 3, self.duration);
            read_opt::<Display, P_repeat, _>(ls, 4, self.repeat);
            assert forall|v: Display| #[trigger] Display::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<Display>(ls, 5, |k: Seq<char>| !Display::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<Display>(ls, 6, |k: Seq<char>| !Display::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for Email {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if Email::tag(k) >= 0 { Email::tag(k) } else if is_x(k) { 8 } else { 9 } }
    }
    impl Email {
        pub proof fn tagged_all() ensures tagged::<Email, P_action>(0), tagged::<Email, P_trigger>(1), tagged::<Email, P_description>(2), tagged::<Email, P_summary>(3), tagged::<Email, P_attendee>(4), tagged::<Email, P_duration>(5), tagged::<Email, P_repeat>(6), tagged::<Email, P_attach>(7),
            forall|k: Seq<char>| (#[trigger] Email::tagx(k) == 8) == (!Email::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] Email::tagx(k) == 9) == (!Email::known(k) && !is_x(k)),
        { reveal(Email::tag); reveal_strlit("ACTION"); reveal_strlit("TRIGGER"); reveal_strlit("DESCRIPTION"); reveal_strlit("SUMMARY"); reveal_strlit("ATTENDEE"); reveal_strlit("DURATION"); reveal_strlit("REPEAT"); reveal_strlit("ATTACH"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("ACTION"@, just(self.action)) } else if i == 1 { each("TRIGGER"@, just(self.trigger)) } else if i == 2 { each("DESCRIPTION"@, just(self.description)) } else if i == 3 { each("SUMMARY"@, just(self.summary)) } else if i == 4 { each("ATTENDEE"@, self.attendee@) } else if i == 5 { each("DURATION"@, maybe(self.duration)) } else if i == 6 { each("REPEAT"@, maybe(self.repeat)) } else if i == 7 { each("ATTACH"@, self.attach@) } else if i == 8 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(10, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 10, self.parts()[0] == each("ACTION"@, just(self.action)), self.parts()[1] == each("TRIGGER"@, just(self.trigger)), self.parts()[2] == each("DESCRIPTION"@, just(self.description)), self.parts()[3] == each("SUMMARY"@, just(self.summary)), self.parts()[4] == each("ATTENDEE"@, self.attendee@), self.parts()[5] == each("DURATION"@, maybe(self.duration)), self.parts()[6] == each("REPEAT"@, maybe(self.repeat)), self.parts()[7] == each("ATTACH"@, self.attach@), self.parts()[8] == mapped(self.x_prop@), self.parts()[9] == mapped(self.iana_prop@)
        { reveal(Email::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_action, _>(just(self.action))
            &&& can_all::<P_trigger, _>(just(self.trigger))
            &&& can_all::<P_description, _>(just(self.description))
            &&& can_all::<P_summary, _>(just(self.summary))
            &&& can_all::<P_attendee, _>(self.attendee@)
            &&& can_all::<P_duration, _>(maybe(self.duration))
            &&& can_all::<P_repeat, _>(maybe(self.repeat))
            &&& can_all::<P_attach, _>(self.attach@)
            &&& map_fit::<Email>(self.x_prop@, 8)
            &&& map_fit::<Email>(self.iana_prop@, 9)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &Email) -> bool {
            &&& self.action.same(&v.action)
            &&& self.trigger.same(&v.trigger)
            &&& self.description.same(&v.description)
            &&& self.summary.same(&v.summary)
            &&& all_same(self.attendee@, v.attendee@)
            &&& same_opt(maybe(self.duration), v.duration)
            &&& same_opt(maybe(self.repeat), v.repeat)
            &&& all_same(self.attach@, v.attach@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<Email>(self.l10(), "EMAIL"@, self.parts(), 10), self.parts().len() == 10
        {
            reveal(Email::fields_fit); Email::tagged_all(); self.lemma_parts();
            let (m, fs) = ("EMAIL"@, self.parts());
            lemma_begun::<Email>(m, fs);
            grow_req::<Email, P_action, _>(self.l0(), m, fs, 0, self.action);
            grow_req::<Email, P_trigger, _>(self.l1(), m, fs, 1, self.trigger);
            grow_req::<Email, P_description, _>(self.l2(), m, fs, 2, self.description);
            grow_req::<Email, P_summary, _>(self.l3(), m, fs, 3, self.summary);
            grow_vec::<Email, P_attendee, _>(self.l4(), m, fs, 4, self.attendee@);
            grow_opt::<Email, P_duration, _>(self.l5(), m, fs, 5, self.duration);
            grow_opt::<Email, P_repeat, _>(self.l6(), m, fs, 6, self.repeat);
            grow_vec::<Email, P_attach, _>(self.l7(), m, fs, 7, self.attach@);
            grow_map::<Email>(self.l8(), m, fs, 8, self.x_prop@);
            grow_map::<Email>(self.l9(), m, fs, 9, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !Email::unreadable(ls), forall|v: Email| #[trigger] Email::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(Email::fields_fit); reveal(Email::same_fields); Email::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<Email>(self.l10(), "EMAIL"@, self.parts());
            let fs = self.parts();
            assert(sel::<Email>(lines_of(ls), 0) == fs[0]); assert(sel::<Email>(lines_of(ls), 1) == fs[1]); assert(sel::<Email>(lines_of(ls), 2) == fs[2]); assert(sel::<Email>(lines_of(ls), 3) == fs[3]); assert(sel::<Email>(lines_of(ls), 4) == fs[4]); assert(sel::<Email>(lines_of(ls), 5) == fs[5]); assert(sel::<Email>(lines_of(ls), 6) == fs[6]); assert(sel::<Email>(lines_of(ls), 7) == fs[7]); assert(sel::<Email>(lines_of(ls), 8) == fs[8]); assert(sel::<Email>(lines_of(ls), 9) == fs[9]);
            read_req::<Email, P_action, _>(ls, 0, self.action);
            read_req::<Email, P_trigger, _>(ls, 1, self.trigger);
            read_req::<Email, P_description, _>(ls, 2, self.description);
            read_req::<Email, P_summary, _>(ls, 3, self.summary);
            read_vec::<Email, P_attendee, _>(ls, 4, self.attendee@);
            read_opt::<Email, P_duration, _>(ls, 5, self.duration);
            read_opt::<Email, P_repeat, _>(ls, 6, self.repeat);
            read_vec::<Email, P_attach, _>(ls, 7, self.attach@);
            assert forall|v: Email| #[trigger] Email::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<Email>(ls, 8, |k: Seq<char>| !Email::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<Email>(ls, 9, |k: Seq<char>| !Email::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for VTimezone {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if VTimezone::tag(k) >= 0 { VTimezone::tag(k) } else if is_x(k) { 3 } else { 4 } }
    }
    impl VTimezone {
        pub proof fn tagged_all() ensures tagged::<VTimezone, P_tzid>(0), tagged::<VTimezone, P_last_modified>(1), tagged::<VTimezone, P_tzurl>(2),
            forall|k: Seq<char>| (#[trigger] VTimezone::tagx(k) == 3) == (!VTimezone::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] VTimezone::tagx(k) == 4) == (!VTimezone::known(k) && !is_x(k)),
        { reveal(VTimezone::tag); reveal_strlit("TZID"); reveal_strlit("LAST-MODIFIED"); reveal_strlit("TZURL"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("TZID"@, just(self.tzid)) } else if i == 1 { each("LAST-MODIFIED"@, maybe(self.last_modified)) } else if i == 2 { each("TZURL"@, maybe(self.tzurl)) } else if i == 3 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(5, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 5, self.parts()[0] == each("TZID"@, just(self.tzid)), self.parts()[1] == each("LAST-MODIFIED"@, maybe(self.last_modified)), self.parts()[2] == each("TZURL"@, maybe(self.tzurl)), self.parts()[3] == mapped(self.x_prop@), self.parts()[4] == mapped(self.iana_prop@)
        { reveal(VTimezone::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_tzid, _>(just(self.tzid))
            &&& can_all::<P_last_modified, _>(maybe(self.last_modified))
            &&& can_all::<P_tzurl, _>(maybe(self.tzurl))
            &&& map_fit::<VTimezone>(self.x_prop@, 3)
            &&& map_fit::<VTimezone>(self.iana_prop@, 4)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &VTimezone) -> bool {
            &&& self.tzid.same(&v.tzid)
            &&& same_opt(maybe(self.last_modified), v.last_modified)
            &&& same_opt(maybe(self.tzurl), v.tzurl)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<VTimezone>(self.l5(), "VTIMEZONE"@, self.parts(), 5), self.parts().len() == 5
        {
            reveal(VTimezone::fields_fit); VTimezone::tagged_all(); self.lemma_parts();
            let (m, fs) = ("VTIMEZONE"@, self.parts());
            lemma_begun::<VTimezone>(m, fs);
            grow_req::<VTimezone, P_tzid, _>(self.l0(), m, fs, 0, self.tzid);
            grow_opt::<VTimezone, P_last_modified, _>(self.l1(), m, fs, 1, self.last_modified);
            grow_opt::<VTimezone, P_tzurl, _>(self.l2(), m, fs, 2, self.tzurl);
            grow_map::<VTimezone>(self.l3(), m, fs, 3, self.x_prop@);
            grow_map::<VTimezone>(self.l4(), m, fs, 4, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !VTimezone::unreadable(ls), forall|v: VTimezone| #[trigger] VTimezone::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(VTimezone::fields_fit); reveal(VTimezone::same_fields); VTimezone::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<VTimezone>(self.l5(), "VTIMEZONE"@, self.parts());
            let fs = self.parts();
            assert(sel::<VTimezone>(lines_of(ls), 0) == fs[0]); assert(sel::<VTimezone>(lines_of(ls), 1) == fs[1]); assert(sel::<VTimezone>(lines_of(ls), 2) == fs[2]); assert(sel::<VTimezone>(lines_of(ls), 3) == fs[3]); assert(sel::<VTimezone>(lines_of(ls), 4) == fs[4]);
            read_req::<VTimezone, P_tzid, _>(ls, 0, self.tzid);
            read_opt::<VTimezone, P_last_modified, _>(ls, 1, self.last_modified);
            read_opt::<VTimezone, P_tzurl, _>(ls, 2, self.tzurl);
            assert forall|v: VTimezone| #[trigger] VTimezone::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<VTimezone>(ls, 3, |k: Seq<char>| !VTimezone::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<VTimezone>(ls, 4, |k: Seq<char>| !VTimezone::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for Standard {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if Standard::tag(k) >= 0 { Standard::tag(k) } else if is_x(k) { 7 } else { 8 } }
    }
    impl Standard {
        pub proof fn tagged_all() ensures tagged::<Standard, P_dtstart>(0), tagged::<Standard, P_tzoffsetto>(1), tagged::<Standard, P_tzoffsetfrom>(2), tagged::<Standard, P_rrule>(3), tagged::<Standard, P_comment>(4), tagged::<Standard, P_rdate>(5), tagged::<Standard, P_tzname>(6),
            forall|k: Seq<char>| (#[trigger] Standard::tagx(k) == 7) == (!Standard::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] Standard::tagx(k) == 8) == (!Standard::known(k) && !is_x(k)),
        { reveal(Standard::tag); reveal_strlit("DTSTART"); reveal_strlit("TZOFFSETTO"); reveal_strlit("TZOFFSETFROM"); reveal_strlit("RRULE"); reveal_strlit("COMMENT"); reveal_strlit("RDATE"); reveal_strlit("TZNAME"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("DTSTART"@, just(self.dtstart)) } else if i == 1 { each("TZOFFSETTO"@, just(self.tzoffsetto)) } else if i == 2 { each("TZOFFSETFROM"@, just(self.tzoffsetfrom)) } else if i == 3 { each("RRULE"@, maybe(self.rrule)) } else if i == 4 { each("COMMENT"@, self.comment@) } else if i == 5 { each("RDATE"@, self.rdate@) } else if i == 6 { each("TZNAME"@, self.tzname@) } else if i == 7 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(9, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 9, self.parts()[0] == each("DTSTART"@, just(self.dtstart)), self.parts()[1] == each("TZOFFSETTO"@, just(self.tzoffsetto)), self.parts()[2] == each("TZOFFSETFROM"@, just(self.tzoffsetfrom)), self.parts()[3] == each("RRULE"@, maybe(self.rrule)), self.parts()[4] == each("COMMENT"@, self.comment@), self.parts()[5] == each("RDATE"@, self.rdate@), self.parts()[6] == each("TZNAME"@, self.tzname@), self.parts()[7] == mapped(self.x_prop@), self.parts()[8] == mapped(self.iana_prop@)
        { reveal(Standard::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_dtstart, _>(just(self.dtstart))
            &&& can_all::<P_tzoffsetto, _>(just(self.tzoffsetto))
            &&& can_all::<P_tzoffsetfrom, _>(just(self.tzoffsetfrom))
            &&& can_all::<P_rrule, _>(maybe(self.rrule))
            &&& can_all::<P_comment, _>(self.comment@)
            &&& can_all::<P_rdate, _>(self.rdate@)
            &&& can_all::<P_tzname, _>(self.tzname@)
            &&& map_fit::<Standard>(self.x_prop@, 7)
            &&& map_fit::<Standard>(self.iana_prop@, 8)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &Standard) -> bool {
            &&& self.dtstart.same(&v.dtstart)
            &&& self.tzoffsetto.same(&v.tzoffsetto)
            &&& self.tzoffsetfrom.same(&v.tzoffsetfrom)
            &&& same_opt(maybe(self.rrule), v.rrule)
            &&& all_same(self.comment@, v.comment@)
            &&& all_same(self.rdate@, v.rdate@)
            &&& all_same(self.tzname@, v.tzname@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<Standard>(self.l9(), "STANDARD"@, self.parts(), 9), self.parts().len() == 9
        {
            reveal(Standard::fields_fit); Standard::tagged_all(); self.lemma_parts();
            let (m, fs) = ("STANDARD"@, self.parts());
            lemma_begun::<Standard>(m, fs);
            grow_req::<Standard, P_dtstart, _>(self.l0(), m, fs, 0, self.dtstart);
            grow_req::<Standard, P_tzoffsetto, _>(self.l1(), m, fs, 1, self.tzoffsetto);
            grow_req::<Standard, P_tzoffsetfrom, _>(self.l2(), m, fs, 2, self.tzoffsetfrom);
            grow_opt::<Standard, P_rrule, _>(self.l3(), m, fs, 3, self.rrule);
            grow_vec::<Standard, P_comment, _>(self.l4(), m, fs, 4, self.comment@);
            grow_vec::<Standard, P_rdate, _>(self.l5(), m, fs, 5, self.rdate@);
            grow_vec::<Standard, P_tzname, _>(self.l6(), m, fs, 6, self.tzname@);
            grow_map::<Standard>(self.l7(), m, fs, 7, self.x_prop@);
            grow_map::<Standard>(self.l8(), m, fs, 8, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !Standard::unreadable(ls), forall|v: Standard| #[trigger] Standard::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(Standard::fields_fit); reveal(Standard::same_fields); Standard::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<Standard>(self.l9(), "STANDARD"@, self.parts());
            let fs = self.parts();
            assert(sel::<Standard>(lines_of(ls), 0) == fs[0]); assert(sel::<Standard>(lines_of(ls), 1) == fs[1]); assert(sel::<Standard>(lines_of(ls), 2) == fs[2]); assert(sel::<Standard>(lines_of(ls), 3) == fs[3]); assert(sel::<Standard>(lines_of(ls), 4) == fs[4]); assert(sel::<Standard>(lines_of(ls), 5) == fs[5]); assert(sel::<Standard>(lines_of(ls), 6) == fs[6]); assert(sel::<Standard>(lines_of(ls), 7) == fs[7]); assert(sel::<Standard>(lines_of(ls), 8) == fs[8]);
            read_req::<Standard, P_dtstart, _>(ls, 0, self.dtstart);
            read_req::<Standard, P_tzoffsetto, _>(ls, 1, self.tzoffsetto);
            read_req::<Standard, P_tzoffsetfrom, _>(ls, 2, self.tzoffsetfrom);
            read_opt::<Standard, P_rrule, _>(ls, 3, self.rrule);
            read_vec::<Standard, P_comment, _>(ls, 4, self.comment@);
            read_vec::<Standard, P_rdate, _>(ls, 5, self.rdate@);
            read_vec::<Standard, P_tzname, _>(ls, 6, self.tzname@);
            assert forall|v: Standard| #[trigger] Standard::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<Standard>(ls, 7, |k: Seq<char>| !Standard::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<Standard>(ls, 8, |k: Seq<char>| !Standard::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
    impl Form for Daylight {
        /// the known properties in order, then the experimental and the other ones
        open spec fn tagx(k: Seq<char>) -> int { if Daylight::tag(k) >= 0 { Daylight::tag(k) } else if is_x(k) { 7 } else { 8 } }
    }
    impl Daylight {
        pub proof fn tagged_all() ensures tagged::<Daylight, P_dtstart>(0), tagged::<Daylight, P_tzoffsetto>(1), tagged::<Daylight, P_tzoffsetfrom>(2), tagged::<Daylight, P_rrule>(3), tagged::<Daylight, P_comment>(4), tagged::<Daylight, P_rdate>(5), tagged::<Daylight, P_tzname>(6),
            forall|k: Seq<char>| (#[trigger] Daylight::tagx(k) == 7) == (!Daylight::known(k) && is_x(k)), forall|k: Seq<char>| (#[trigger] Daylight::tagx(k) == 8) == (!Daylight::known(k) && !is_x(k)),
        { reveal(Daylight::tag); reveal_strlit("DTSTART"); reveal_strlit("TZOFFSETTO"); reveal_strlit("TZOFFSETFROM"); reveal_strlit("RRULE"); reveal_strlit("COMMENT"); reveal_strlit("RDATE"); reveal_strlit("TZNAME"); }
        #[verifier::opaque]
        pub open spec fn part(&self, i: int) -> Lines { if i == 0 { each("DTSTART"@, just(self.dtstart)) } else if i == 1 { each("TZOFFSETTO"@, just(self.tzoffsetto)) } else if i == 2 { each("TZOFFSETFROM"@, just(self.tzoffsetfrom)) } else if i == 3 { each("RRULE"@, maybe(self.rrule)) } else if i == 4 { each("COMMENT"@, self.comment@) } else if i == 5 { each("RDATE"@, self.rdate@) } else if i == 6 { each("TZNAME"@, self.tzname@) } else if i == 7 { mapped(self.x_prop@) } else { mapped(self.iana_prop@) } }
        pub open spec fn parts(&self) -> Seq<Lines> { Seq::new(9, |i: int| self.part(i)) }
        pub proof fn lemma_parts(&self) ensures self.parts().len() == 9, self.parts()[0] == each("DTSTART"@, just(self.dtstart)), self.parts()[1] == each("TZOFFSETTO"@, just(self.tzoffsetto)), self.parts()[2] == each("TZOFFSETFROM"@, just(self.tzoffsetfrom)), self.parts()[3] == each("RRULE"@, maybe(self.rrule)), self.parts()[4] == each("COMMENT"@, self.comment@), self.parts()[5] == each("RDATE"@, self.rdate@), self.parts()[6] == each("TZNAME"@, self.tzname@), self.parts()[7] == mapped(self.x_prop@), self.parts()[8] == mapped(self.iana_prop@)
        { reveal(Daylight::part); }
        /// the values of its fields have a text that says them
        #[verifier::opaque]
        pub open spec fn fields_fit(&self) -> bool {
            &&& can_all::<P_dtstart, _>(just(self.dtstart))
            &&& can_all::<P_tzoffsetto, _>(just(self.tzoffsetto))
            &&& can_all::<P_tzoffsetfrom, _>(just(self.tzoffsetfrom))
            &&& can_all::<P_rrule, _>(maybe(self.rrule))
            &&& can_all::<P_comment, _>(self.comment@)
            &&& can_all::<P_rdate, _>(self.rdate@)
            &&& can_all::<P_tzname, _>(self.tzname@)
            &&& map_fit::<Daylight>(self.x_prop@, 7)
            &&& map_fit::<Daylight>(self.iana_prop@, 8)
        }
        /// the fields are the same
        #[verifier::opaque]
        pub open spec fn same_fields(&self, v: &Daylight) -> bool {
            &&& self.dtstart.same(&v.dtstart)
            &&& self.tzoffsetto.same(&v.tzoffsetto)
            &&& self.tzoffsetfrom.same(&v.tzoffsetfrom)
            &&& same_opt(maybe(self.rrule), v.rrule)
            &&& all_same(self.comment@, v.comment@)
            &&& all_same(self.rdate@, v.rdate@)
            &&& all_same(self.tzname@, v.tzname@)
            &&& same_map(self.x_prop, v.x_prop)
            &&& same_map(self.iana_prop, v.iana_prop)
        }
        pub proof fn lemma_written(&self) requires self.fields_fit() ensures grown::<Daylight>(self.l9(), "DAYLIGHT"@, self.parts(), 9), self.parts().len() == 9
        {
            reveal(Daylight::fields_fit); Daylight::tagged_all(); self.lemma_parts();
            let (m, fs) = ("DAYLIGHT"@, self.parts());
            lemma_begun::<Daylight>(m, fs);
            grow_req::<Daylight, P_dtstart, _>(self.l0(), m, fs, 0, self.dtstart);
            grow_req::<Daylight, P_tzoffsetto, _>(self.l1(), m, fs, 1, self.tzoffsetto);
            grow_req::<Daylight, P_tzoffsetfrom, _>(self.l2(), m, fs, 2, self.tzoffsetfrom);
            grow_opt::<Daylight, P_rrule, _>(self.l3(), m, fs, 3, self.rrule);
            grow_vec::<Daylight, P_comment, _>(self.l4(), m, fs, 4, self.comment@);
            grow_vec::<Daylight, P_rdate, _>(self.l5(), m, fs, 5, self.rdate@);
            grow_vec::<Daylight, P_tzname, _>(self.l6(), m, fs, 6, self.tzname@);
            grow_map::<Daylight>(self.l7(), m, fs, 7, self.x_prop@);
            grow_map::<Daylight>(self.l8(), m, fs, 8, self.iana_prop@);
        }
        pub proof fn lemma_back(&self, ls: Seq<ContentLine>)
            requires self.fields_fit(), lines_of(ls) == flat_lines(self.parts())
            ensures !Daylight::unreadable(ls), forall|v: Daylight| #[trigger] Daylight::read(ls, ls.len(), v) ==> self.same_fields(&v)
        {
            reveal(Daylight::fields_fit); reveal(Daylight::same_fields); Daylight::tagged_all(); self.lemma_parts(); self.lemma_written();
            lemma_sels::<Daylight>(self.l9(), "DAYLIGHT"@, self.parts());
            let fs = self.parts();
            assert(sel::<Daylight>(lines_of(ls), 0) == fs[0]); assert(sel::<Daylight>(lines_of(ls), 1) == fs[1]); assert(sel::<Daylight>(lines_of(ls), 2) == fs[2]); assert(sel::<Daylight>(lines_of(ls), 3) == fs[3]); assert(sel::<Daylight>(lines_of(ls), 4) == fs[4]); assert(sel::<Daylight>(lines_of(ls), 5) == fs[5]); assert(sel::<Daylight>(lines_of(ls), 6) == fs[6]); assert(sel::<Daylight>(lines_of(ls), 7) == fs[7]); assert(sel::<Daylight>(lines_of(ls), 8) == fs[8]);
            read_req::<Daylight, P_dtstart, _>(ls, 0, self.dtstart);
            read_req::<Daylight, P_tzoffsetto, _>(ls, 1, self.tzoffsetto);
            read_req::<Daylight, P_tzoffsetfrom, _>(ls, 2, self.tzoffsetfrom);
            read_opt::<Daylight, P_rrule, _>(ls, 3, self.rrule);
            read_vec::<Daylight, P_comment, _>(ls, 4, self.comment@);
            read_vec::<Daylight, P_rdate, _>(ls, 5, self.rdate@);
            read_vec::<Daylight, P_tzname, _>(ls, 6, self.tzname@);
            assert forall|v: Daylight| #[trigger] Daylight::read(ls, ls.len(), v) implies self.same_fields(&v) by {
                read_map::<Daylight>(ls, 7, |k: Seq<char>| !Daylight::known(k) && is_x(k), self.x_prop, v.x_prop);
                read_map::<Daylight>(ls, 8, |k: Seq<char>| !Daylight::known(k) && !is_x(k), self.iana_prop, v.iana_prop);
            }
        }
    }
}
