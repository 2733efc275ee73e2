// generated by tools/gencomp.py
// Each component among others, and the components of a component.
pub mod among {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::str::FromStr;
    use crate::ser::*;
    use crate::lines::*;
    use crate::grammar::*;
    use crate::again::*;
    use crate::glue::lines_of;
    use crate::nest::*;
    use crate::entry::text_of;
    use crate::unfold::unfolded;
    use crate::trip::*;
    use crate::round::*;
    use crate::rounds::*;
    use crate::whole::*;
    use crate::walarm::{as_valarm, inner};
    use crate::r_valarm::first_action;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::Component;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    use crate::components::vtimezone::{Standard, Daylight, VTimezone};
    use crate::components::vtimezone::Component as Part;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11
    impl VFreebusy {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("VFREEBUSY"@)) is Some,
                !VFreebusy::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VFreebusy| #[trigger] VFreebusy::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        {
            reveal(<VFreebusy as Shape>::shows);
            VFreebusy::bare_name();
            self.lemma_written();
            lemma_simple::<VFreebusy>("VFREEBUSY"@, self.l13(), self.parts(), rest);
            reveal(<VFreebusy as Piece>::at); reveal(<VFreebusy as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !VFreebusy::unreadable(ls) && forall|v: VFreebusy| #[trigger] VFreebusy::read(ls, ls.len(), v) ==> self.alike(&v) by { self.lemma_back(ls); }
        }
    }
    impl Shape for VFreebusy {
        open spec fn fits(&self) -> bool { self.fields_fit() }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for VFreebusy {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<VFreebusy>(n, rest); }
    }
    impl VFreebusy {
        proof fn bare_name() ensures bare("VFREEBUSY"@) { reveal_strlit("VFREEBUSY"); let n = "VFREEBUSY"@; assert(n[0] == 'V' && n[1] == 'F' && n[2] == 'R' && n[3] == 'E' && n[4] == 'E' && n[5] == 'B' && n[6] == 'U' && n[7] == 'S' && n[8] == 'Y'); }
    }
    impl Titled for VFreebusy {
        open spec fn title() -> Seq<char> { "VFREEBUSY"@ }
        proof fn title_ok() { VFreebusy::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<VFreebusy as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_vfreebusy() ensures forall|x: VFreebusy| #[trigger] x.shows() == x.lines() { reveal(<VFreebusy as Shape>::shows); }
    impl VJournal {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("VJOURNAL"@)) is Some,
                !VJournal::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VJournal| #[trigger] VJournal::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        {
            reveal(<VJournal as Shape>::shows);
            VJournal::bare_name();
            self.lemma_written();
            lemma_simple::<VJournal>("VJOURNAL"@, self.l25(), self.parts(), rest);
            reveal(<VJournal as Piece>::at); reveal(<VJournal as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !VJournal::unreadable(ls) && forall|v: VJournal| #[trigger] VJournal::read(ls, ls.len(), v) ==> self.alike(&v) by { self.lemma_back(ls); }
        }
    }
    impl Shape for VJournal {
        open spec fn fits(&self) -> bool { self.fields_fit() }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for VJournal {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<VJournal>(n, rest); }
    }
    impl VJournal {
        proof fn bare_name() ensures bare("VJOURNAL"@) { reveal_strlit("VJOURNAL"); let n = "VJOURNAL"@; assert(n[0] == 'V' && n[1] == 'J' && n[2] == 'O' && n[3] == 'U' && n[4] == 'R' && n[5] == 'N' && n[6] == 'A' && n[7] == 'L'); }
    }
    impl Titled for VJournal {
        open spec fn title() -> Seq<char> { "VJOURNAL"@ }
        proof fn title_ok() { VJournal::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<VJournal as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_vjournal() ensures forall|x: VJournal| #[trigger] x.shows() == x.lines() { reveal(<VJournal as Shape>::shows); }
    impl VTodo {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("VTODO"@)) is Some,
                !VTodo::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VTodo| #[trigger] VTodo::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        {
            reveal(<VTodo as Shape>::shows);
            VTodo::bare_name();
            self.lemma_written();
            lemma_simple::<VTodo>("VTODO"@, self.l32(), self.parts(), rest);
            reveal(<VTodo as Piece>::at); reveal(<VTodo as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !VTodo::unreadable(ls) && forall|v: VTodo| #[trigger] VTodo::read(ls, ls.len(), v) ==> self.alike(&v) by { self.lemma_back(ls); }
        }
    }
    impl Shape for VTodo {
        open spec fn fits(&self) -> bool { self.fields_fit() }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for VTodo {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<VTodo>(n, rest); }
    }
    impl VTodo {
        proof fn bare_name() ensures bare("VTODO"@) { reveal_strlit("VTODO"); let n = "VTODO"@; assert(n[0] == 'V' && n[1] == 'T' && n[2] == 'O' && n[3] == 'D' && n[4] == 'O'); }
    }
    impl Titled for VTodo {
        open spec fn title() -> Seq<char> { "VTODO"@ }
        proof fn title_ok() { VTodo::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<VTodo as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_vtodo() ensures forall|x: VTodo| #[trigger] x.shows() == x.lines() { reveal(<VTodo as Shape>::shows); }
    impl Standard {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("STANDARD"@)) is Some,
                !Standard::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: Standard| #[trigger] Standard::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        {
            reveal(<Standard as Shape>::shows);
            Standard::bare_name();
            self.lemma_written();
            lemma_simple::<Standard>("STANDARD"@, self.l9(), self.parts(), rest);
            reveal(<Standard as Piece>::at); reveal(<Standard as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !Standard::unreadable(ls) && forall|v: Standard| #[trigger] Standard::read(ls, ls.len(), v) ==> self.alike(&v) by { self.lemma_back(ls); }
        }
    }
    impl Shape for Standard {
        open spec fn fits(&self) -> bool { self.fields_fit() }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for Standard {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<Standard>(n, rest); }
    }
    impl Standard {
        proof fn bare_name() ensures bare("STANDARD"@) { reveal_strlit("STANDARD"); let n = "STANDARD"@; assert(n[0] == 'S' && n[1] == 'T' && n[2] == 'A' && n[3] == 'N' && n[4] == 'D' && n[5] == 'A' && n[6] == 'R' && n[7] == 'D'); }
    }
    impl Titled for Standard {
        open spec fn title() -> Seq<char> { "STANDARD"@ }
        proof fn title_ok() { Standard::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<Standard as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_standard() ensures forall|x: Standard| #[trigger] x.shows() == x.lines() { reveal(<Standard as Shape>::shows); }
    impl Daylight {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("DAYLIGHT"@)) is Some,
                !Daylight::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: Daylight| #[trigger] Daylight::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        {
            reveal(<Daylight as Shape>::shows);
            Daylight::bare_name();
            self.lemma_written();
            lemma_simple::<Daylight>("DAYLIGHT"@, self.l9(), self.parts(), rest);
            reveal(<Daylight as Piece>::at); reveal(<Daylight as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !Daylight::unreadable(ls) && forall|v: Daylight| #[trigger] Daylight::read(ls, ls.len(), v) ==> self.alike(&v) by { self.lemma_back(ls); }
        }
    }
    impl Shape for Daylight {
        open spec fn fits(&self) -> bool { self.fields_fit() }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for Daylight {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<Daylight>(n, rest); }
    }
    impl Daylight {
        proof fn bare_name() ensures bare("DAYLIGHT"@) { reveal_strlit("DAYLIGHT"); let n = "DAYLIGHT"@; assert(n[0] == 'D' && n[1] == 'A' && n[2] == 'Y' && n[3] == 'L' && n[4] == 'I' && n[5] == 'G' && n[6] == 'H' && n[7] == 'T'); }
    }
    impl Titled for Daylight {
        open spec fn title() -> Seq<char> { "DAYLIGHT"@ }
        proof fn title_ok() { Daylight::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<Daylight as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_daylight() ensures forall|x: Daylight| #[trigger] x.shows() == x.lines() { reveal(<Daylight as Shape>::shows); }
    /// an alarm of the right kind
    pub open spec fn action_of(v: VAlarm) -> Seq<char> { match v { VAlarm::Audio(x) => x.action.text@, VAlarm::Display(x) => x.action.text@, VAlarm::Email(x) => x.action.text@ } }
    pub open spec fn kind_of(v: VAlarm) -> Seq<char> { match v { VAlarm::Audio(_) => "AUDIO"@, VAlarm::Display(_) => "DISPLAY"@, VAlarm::Email(_) => "EMAIL"@ } }
    proof fn lemma_kinds() ensures "AUDIO"@ != "DISPLAY"@, "AUDIO"@ != "EMAIL"@, "DISPLAY"@ != "EMAIL"@
    { reveal_strlit("AUDIO"); reveal_strlit("DISPLAY"); reveal_strlit("EMAIL"); }
    /// the ACTION that is read is the one that was written
    proof fn lemma_action<T: Form>(rs: Lines, k: Seq<char>, ls: Seq<ContentLine>, r: Line)
        requires lines_of(ls) == rs, forall|n: Seq<char>| (#[trigger] T::tagx(n) == 0) == (n == k), sel::<T>(rs, 0) == seq![r]
        ensures exists|j: int| 0 <= j < ls.len() && (#[trigger] ls[j]).key@ == k, forall|j: int| 0 <= j < ls.len() && (#[trigger] ls[j]).key@ == k ==> ls[j].value@ == r.value
    {
        lemma_sel_some::<T>(rs, 0);
        let j = choose|j: int| 0 <= j < rs.len() && T::tagx((#[trigger] rs[j]).key) == 0;
        assert(rs[j] == crate::glue::line_of(ls[j]));
        assert(ls[j].key@ == k);
        assert forall|j: int| 0 <= j < ls.len() && (#[trigger] ls[j]).key@ == k implies ls[j].value@ == r.value by {
            assert(rs[j] == crate::glue::line_of(ls[j]));
            assert(T::tagx(rs[j].key) == 0);
            lemma_sel_has::<T>(rs, 0, j);
        }
    }
    impl Audio {
        proof fn alarm_core(&self, rest: Seq<char>)
            requires self.fields_fit(), self.action.text@ == "AUDIO"@
            ensures ({
                let i = ended(as_valarm(self.lines())) + rest;
                &&& all_solid(as_valarm(self.lines())) && g_line(i) is None && after(i, opens("VALARM"@)) is Some && !VAlarm::none(i)
                &&& forall|t: Seq<char>, v: VAlarm| #[trigger] VAlarm::at(i, t, v) ==> t == rest && (v matches VAlarm::Audio(w) && self.same_fields(&w))
            })
        {
            VAlarm::bare_name(); lemma_kinds(); Audio::tagged_all(); self.lemma_parts();
            self.lemma_written();
            let l = self.l7();
            let fs = self.parts();
            lemma_relabelled::<Audio>("AUDIO"@, "VALARM"@, l, fs);
            let l2 = l.update(0, begins("VALARM"@));
            assert(as_valarm(self.lines()) =~= app(l2, seq!["END:"@ + "VALARM"@])) by { reveal(app); }
            lemma_simple::<Audio>("VALARM"@, l2, fs, rest);
            lemma_sels::<Audio>(l, "AUDIO"@, fs);
            assert(sel::<Audio>(flat_lines(fs), 0) == fs[0]);
            let r = line("ACTION"@, self.action);
            assert(fs[0] =~= seq![r]);
            reveal_strlit("AUDIO"); lemma_esc_plain("AUDIO"@);
            assert(r.value == "AUDIO"@);
            reveal(<VAlarm as Piece>::at); reveal(<VAlarm as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(fs) implies !no_alarm_lines(ls) && forall|v: VAlarm| #[trigger] alarm_lines(ls, v) ==> (v matches VAlarm::Audio(w) && self.same_fields(&w)) by {
                self.lemma_back(ls);
                lemma_action::<Audio>(flat_lines(fs), "ACTION"@, ls, r);
            }
        }
    }
    impl Display {
        proof fn alarm_core(&self, rest: Seq<char>)
            requires self.fields_fit(), self.action.text@ == "DISPLAY"@
            ensures ({
                let i = ended(as_valarm(self.lines())) + rest;
                &&& all_solid(as_valarm(self.lines())) && g_line(i) is None && after(i, opens("VALARM"@)) is Some && !VAlarm::none(i)
                &&& forall|t: Seq<char>, v: VAlarm| #[trigger] VAlarm::at(i, t, v) ==> t == rest && (v matches VAlarm::Display(w) && self.same_fields(&w))
            })
        {
            VAlarm::bare_name(); lemma_kinds(); Display::tagged_all(); self.lemma_parts();
            self.lemma_written();
            let l = self.l7();
            let fs = self.parts();
            lemma_relabelled::<Display>("DISPLAY"@, "VALARM"@, l, fs);
            let l2 = l.update(0, begins("VALARM"@));
            assert(as_valarm(self.lines()) =~= app(l2, seq!["END:"@ + "VALARM"@])) by { reveal(app); }
            lemma_simple::<Display>("VALARM"@, l2, fs, rest);
            lemma_sels::<Display>(l, "DISPLAY"@, fs);
            assert(sel::<Display>(flat_lines(fs), 0) == fs[0]);
            let r = line("ACTION"@, self.action);
            assert(fs[0] =~= seq![r]);
            reveal_strlit("DISPLAY"); lemma_esc_plain("DISPLAY"@);
            assert(r.value == "DISPLAY"@);
            reveal(<VAlarm as Piece>::at); reveal(<VAlarm as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(fs) implies !no_alarm_lines(ls) && forall|v: VAlarm| #[trigger] alarm_lines(ls, v) ==> (v matches VAlarm::Display(w) && self.same_fields(&w)) by {
                self.lemma_back(ls);
                lemma_action::<Display>(flat_lines(fs), "ACTION"@, ls, r);
            }
        }
    }
    impl Email {
        proof fn alarm_core(&self, rest: Seq<char>)
            requires self.fields_fit(), self.action.text@ == "EMAIL"@
            ensures ({
                let i = ended(as_valarm(self.lines())) + rest;
                &&& all_solid(as_valarm(self.lines())) && g_line(i) is None && after(i, opens("VALARM"@)) is Some && !VAlarm::none(i)
                &&& forall|t: Seq<char>, v: VAlarm| #[trigger] VAlarm::at(i, t, v) ==> t == rest && (v matches VAlarm::Email(w) && self.same_fields(&w))
            })
        {
            VAlarm::bare_name(); lemma_kinds(); Email::tagged_all(); self.lemma_parts();
            self.lemma_written();
            let l = self.l10();
            let fs = self.parts();
            lemma_relabelled::<Email>("EMAIL"@, "VALARM"@, l, fs);
            let l2 = l.update(0, begins("VALARM"@));
            assert(as_valarm(self.lines()) =~= app(l2, seq!["END:"@ + "VALARM"@])) by { reveal(app); }
            lemma_simple::<Email>("VALARM"@, l2, fs, rest);
            lemma_sels::<Email>(l, "EMAIL"@, fs);
            assert(sel::<Email>(flat_lines(fs), 0) == fs[0]);
            let r = line("ACTION"@, self.action);
            assert(fs[0] =~= seq![r]);
            reveal_strlit("EMAIL"); lemma_esc_plain("EMAIL"@);
            assert(r.value == "EMAIL"@);
            reveal(<VAlarm as Piece>::at); reveal(<VAlarm as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(fs) implies !no_alarm_lines(ls) && forall|v: VAlarm| #[trigger] alarm_lines(ls, v) ==> (v matches VAlarm::Email(w) && self.same_fields(&w)) by {
                self.lemma_back(ls);
                lemma_action::<Email>(flat_lines(fs), "ACTION"@, ls, r);
            }
        }
    }
    impl VAlarm {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("VALARM"@)) is Some,
                !VAlarm::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VAlarm| #[trigger] VAlarm::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        { reveal(<VAlarm as Shape>::shows); match *self { VAlarm::Audio(x) => x.alarm_core(rest), VAlarm::Display(x) => x.alarm_core(rest), VAlarm::Email(x) => x.alarm_core(rest) } }
    }
    impl Shape for VAlarm {
        /// its ACTION names its kind
        open spec fn fits(&self) -> bool { action_of(*self) == kind_of(*self) && match *self { VAlarm::Audio(x) => x.fields_fit(), VAlarm::Display(x) => x.fields_fit(), VAlarm::Email(x) => x.fields_fit() } }
        open spec fn alike(&self, v: &Self) -> bool { match (*self, *v) { (VAlarm::Audio(x), VAlarm::Audio(y)) => x.same_fields(&y), (VAlarm::Display(x), VAlarm::Display(y)) => x.same_fields(&y), (VAlarm::Email(x), VAlarm::Email(y)) => x.same_fields(&y), _ => false } }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for VAlarm {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<VAlarm>(n, rest); }
    }
    impl VAlarm {
        proof fn bare_name() ensures bare("VALARM"@) { reveal_strlit("VALARM"); let n = "VALARM"@; assert(n[0] == 'V' && n[1] == 'A' && n[2] == 'L' && n[3] == 'A' && n[4] == 'R' && n[5] == 'M'); }
    }
    impl Titled for VAlarm {
        open spec fn title() -> Seq<char> { "VALARM"@ }
        proof fn title_ok() { VAlarm::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<VAlarm as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_valarm() ensures forall|x: VAlarm| #[trigger] x.shows() == x.lines() { reveal(<VAlarm as Shape>::shows); }
    impl VEvent {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("VEVENT"@)) is Some,
                !VEvent::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VEvent| #[trigger] VEvent::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        {
            reveal(<VEvent as Shape>::shows); shown_valarm();
            VEvent::bare_name();
            self.lemma_written();
            let xs = self.alarms@;
            lemma_subs(self.l32(), "ALARMS"@, xs, xs.len());
            assert(xs.take(xs.len() as int) =~= xs);
            lemma_after(closes("VEVENT"@), rest);
            lemma_nesting::<VEvent, VAlarm>("VEVENT"@, closes("VEVENT"@), self.l32(), self.parts(), xs, rest);
            reveal(<VEvent as Piece>::at); reveal(<VEvent as Piece>::none);
            assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !VEvent::unreadable(ls) && forall|v: VEvent| #[trigger] VEvent::read(ls, ls.len(), v) ==> self.same_fields(&v) by { self.lemma_back(ls); }
            assert forall|ls: Seq<ContentLine>, vs: Seq<VAlarm>, v: VEvent| lines_of(ls) == flat_lines(self.parts()) && #[trigger] event_of(ls, vs, v) implies self.same_fields(&v) && v.alarms@ == vs by {
                let e = choose|e: VEvent| #[trigger] VEvent::read(ls, ls.len(), e) && v == (VEvent { alarms: v.alarms, ..e }) && v.alarms@ == vs;
                assert(self.same_fields(&e));
                assert(self.same_fields(&v)) by { reveal(VEvent::same_fields); }
            }
        }
    }
    impl Shape for VEvent {
        open spec fn fits(&self) -> bool { self.fields_fit() && all_fits(self.alarms@) }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) && all_alike(self.alarms@, v.alarms@) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for VEvent {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<VEvent>(n, rest); }
    }
    impl VEvent {
        proof fn bare_name() ensures bare("VEVENT"@) { reveal_strlit("VEVENT"); let n = "VEVENT"@; assert(n[0] == 'V' && n[1] == 'E' && n[2] == 'V' && n[3] == 'E' && n[4] == 'N' && n[5] == 'T'); }
    }
    impl Titled for VEvent {
        open spec fn title() -> Seq<char> { "VEVENT"@ }
        proof fn title_ok() { VEvent::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<VEvent as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_vevent() ensures forall|x: VEvent| #[trigger] x.shows() == x.lines() { reveal(<VEvent as Shape>::shows); }
    proof fn lemma_fits_add<O: Whole>(a: Seq<O>, b: Seq<O>)
        requires all_fits(a), all_fits(b)
        ensures all_fits(a + b)
    { assert forall|k: int| 0 <= k < (a + b).len() implies (#[trigger] (a + b)[k]).fits() by { if k < a.len() { assert(a[k].fits()); } else { assert(b[k - a.len()].fits()); } } }
    impl Shape for Part {
        open spec fn fits(&self) -> bool { match *self { Part::Standard(x) => x.fits(), Part::Daylight(x) => x.fits(), } }
        open spec fn alike(&self, v: &Self) -> bool { match (*self, *v) { (Part::Standard(x), Part::Standard(y)) => x.alike(&y), (Part::Daylight(x), Part::Daylight(y)) => x.alike(&y), _ => false } }
        open spec fn shows(&self) -> Texts { match *self { Part::Standard(x) => x.shows(), Part::Daylight(x) => x.shows(), } }
    }
    impl Whole for Part {
        proof fn lines_solid(x: Self) { match x { Part::Standard(x) => Standard::lines_solid(x), Part::Daylight(x) => Daylight::lines_solid(x), } }
        proof fn no_line(x: Self, rest: Seq<char>) { match x { Part::Standard(x) => Standard::no_line(x, rest), Part::Daylight(x) => Daylight::no_line(x, rest), } }
        proof fn round(x: Self, rest: Seq<char>) {
            match x { Part::Standard(x) => round_standard(x, rest), Part::Daylight(x) => round_daylight(x, rest), }
        }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { reveal(<Part as Piece>::at); lemma_not_end::<Standard>(n, rest); lemma_not_end::<Daylight>(n, rest); }
    }
    proof fn lemma_part_titles() ensures Standard::title() != Daylight::title(), Daylight::title() != Standard::title()
    { reveal_strlit("STANDARD"); reveal_strlit("DAYLIGHT"); }
    /// no other kind is read from it
    proof fn round_standard(x: Standard, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Part::none(i) && forall|t: Seq<char>, v: Part| #[trigger] Part::at(i, t, v) ==> t == rest && Part::Standard(x).alike(&v) })
    {
        reveal(<Part as Piece>::at); reveal(<Part as Piece>::none);
        lemma_part_titles();
        Standard::round(x, rest);
        lemma_other::<Standard, Daylight>(x, rest);
    }
    pub open spec fn as_standard(xs: Seq<Standard>) -> Seq<Part> { Seq::new(xs.len(), |k: int| Part::Standard(xs[k])) }
    proof fn lemma_as_standard(xs: Seq<Standard>)
        requires all_fits(xs)
        ensures all_fits(as_standard(xs)), wholes(as_standard(xs)) == wholes(xs)
    {
        let ys = as_standard(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_standard(xs: Seq<Part>, vs: Seq<Part>)
        requires all_alike(xs, vs)
        ensures all_alike(standards(xs), standards(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_standard(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (standards(a), standards(b));
            assert forall|k: int| 0 <= k < standards(xs).len() implies (#[trigger] standards(xs)[k]).alike(&standards(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_standard(a: Seq<Part>, b: Seq<Part>)
        ensures standards(a + b) == standards(a) + standards(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(standards(a) + standards(b) =~= standards(a)); } else {
            lemma_add_standard(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(standards(a + b) =~= standards(a) + standards(b));
        }
    }
    proof fn lemma_own_standard(xs: Seq<Standard>)
        ensures standards(as_standard(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_standard(xs.drop_last());
            assert(as_standard(xs).drop_last() =~= as_standard(xs.drop_last()));
            assert(standards(as_standard(xs)) =~= xs);
        } else { assert(standards(as_standard(xs)) =~= xs); }
    }
    proof fn lemma_not_standard(xs: Seq<Part>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Standard)
        ensures standards(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Standard));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Standard) by { assert(!(xs[k] is Standard)); }
            lemma_not_standard(xs.drop_last());
        }
    }
    /// no other kind is read from it
    proof fn round_daylight(x: Daylight, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Part::none(i) && forall|t: Seq<char>, v: Part| #[trigger] Part::at(i, t, v) ==> t == rest && Part::Daylight(x).alike(&v) })
    {
        reveal(<Part as Piece>::at); reveal(<Part as Piece>::none);
        lemma_part_titles();
        Daylight::round(x, rest);
        lemma_other::<Daylight, Standard>(x, rest);
    }
    pub open spec fn as_daylight(xs: Seq<Daylight>) -> Seq<Part> { Seq::new(xs.len(), |k: int| Part::Daylight(xs[k])) }
    proof fn lemma_as_daylight(xs: Seq<Daylight>)
        requires all_fits(xs)
        ensures all_fits(as_daylight(xs)), wholes(as_daylight(xs)) == wholes(xs)
    {
        let ys = as_daylight(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_daylight(xs: Seq<Part>, vs: Seq<Part>)
        requires all_alike(xs, vs)
        ensures all_alike(daylights(xs), daylights(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_daylight(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (daylights(a), daylights(b));
            assert forall|k: int| 0 <= k < daylights(xs).len() implies (#[trigger] daylights(xs)[k]).alike(&daylights(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_daylight(a: Seq<Part>, b: Seq<Part>)
        ensures daylights(a + b) == daylights(a) + daylights(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(daylights(a) + daylights(b) =~= daylights(a)); } else {
            lemma_add_daylight(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(daylights(a + b) =~= daylights(a) + daylights(b));
        }
    }
    proof fn lemma_own_daylight(xs: Seq<Daylight>)
        ensures daylights(as_daylight(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_daylight(xs.drop_last());
            assert(as_daylight(xs).drop_last() =~= as_daylight(xs.drop_last()));
            assert(daylights(as_daylight(xs)) =~= xs);
        } else { assert(daylights(as_daylight(xs)) =~= xs); }
    }
    proof fn lemma_not_daylight(xs: Seq<Part>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Daylight)
        ensures daylights(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Daylight));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Daylight) by { assert(!(xs[k] is Daylight)); }
            lemma_not_daylight(xs.drop_last());
        }
    }
    pub open spec fn all_parts(standard: Seq<Standard>, daylight: Seq<Daylight>) -> Seq<Part> { as_standard(standard) + as_daylight(daylight) }
    proof fn lemma_all_parts(standard: Seq<Standard>, daylight: Seq<Daylight>)
        requires all_fits(standard), all_fits(daylight)
        ensures all_fits(all_parts(standard, daylight)), wholes(all_parts(standard, daylight)) == wholes(standard) + wholes(daylight),
            forall|vs: Seq<Part>| #[trigger] all_alike(all_parts(standard, daylight), vs) ==> all_alike(standard, standards(vs)) && all_alike(daylight, daylights(vs)),
    {
        lemma_as_standard(standard); lemma_own_standard(standard);
        lemma_not_daylight(as_standard(standard));
        lemma_as_daylight(daylight); lemma_own_daylight(daylight);
        lemma_not_standard(as_daylight(daylight));
        lemma_wholes_add(as_standard(standard), as_daylight(daylight)); lemma_fits_add(as_standard(standard), as_daylight(daylight));
        lemma_add_standard(as_standard(standard), as_daylight(daylight));
        lemma_add_daylight(as_standard(standard), as_daylight(daylight));
        assert(standards(all_parts(standard, daylight)) =~= standard);
        assert(daylights(all_parts(standard, daylight)) =~= daylight);
        assert forall|vs: Seq<Part>| #[trigger] all_alike(all_parts(standard, daylight), vs) implies all_alike(standard, standards(vs)) && all_alike(daylight, daylights(vs)) by { lemma_kept_standard(all_parts(standard, daylight), vs); lemma_kept_daylight(all_parts(standard, daylight), vs); }
    }
    impl VTimezone {
        pub open spec fn all_subs(&self) -> Seq<Part> { all_parts(self.standard@, self.daylight@) }
        pub open spec fn subs_alike(&self, v: &VTimezone) -> bool { all_alike(self.standard@, v.standard@) && all_alike(self.daylight@, v.daylight@) }
        proof fn lemma_lines(&self)
            requires all_fits(self.standard@), all_fits(self.daylight@)
            ensures self.shows() == closed("VTIMEZONE"@, self.l5(), wholes(self.all_subs())), all_fits(self.all_subs())
        {
            shown_vtimezone(); shown_standard(); shown_daylight();
            lemma_subs(self.l5(), "STANDARD"@, self.standard@, self.standard@.len());
            assert(self.standard@.take(self.standard@.len() as int) =~= self.standard@);
            lemma_subs(self.l6(), "DAYLIGHT"@, self.daylight@, self.daylight@.len());
            assert(self.daylight@.take(self.daylight@.len() as int) =~= self.daylight@);
            lemma_app_app(self.l5(), wholes(self.standard@), wholes(self.daylight@));
            lemma_all_parts(self.standard@, self.daylight@);
        }
        proof fn lemma_of(&self, ls: Seq<ContentLine>, vs: Seq<Part>, v: VTimezone)
            requires self.fields_fit(), all_fits(self.standard@), all_fits(self.daylight@), lines_of(ls) == flat_lines(self.parts()), timezone_of(ls, vs, v), all_alike(self.all_subs(), vs)
            ensures self.same_fields(&v), self.subs_alike(&v)
        {
            self.lemma_back(ls);
            lemma_all_parts(self.standard@, self.daylight@);
            let e = choose|e: VTimezone| #[trigger] VTimezone::read(ls, ls.len(), e) && v == (VTimezone { standard: v.standard, daylight: v.daylight, ..e }) && v.standard@ == standards(vs) && v.daylight@ == daylights(vs);
            assert(self.same_fields(&e));
            assert(self.same_fields(&v)) by { reveal(VTimezone::same_fields); }
        }
    }
    impl VTimezone {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), g_line(ended(self.shows()) + rest) is None, after(ended(self.shows()) + rest, opens("VTIMEZONE"@)) is Some,
                !VTimezone::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VTimezone| #[trigger] VTimezone::at(ended(self.shows()) + rest, t, v) ==> t == rest && self.alike(&v),
        {
            lemma_after(closes("VTIMEZONE"@), rest); VTimezone::bare_name();
            self.lemma_written();
            self.lemma_lines();
            let xs = self.all_subs();
            lemma_nesting::<VTimezone, Part>("VTIMEZONE"@, closes("VTIMEZONE"@), self.l5(), self.parts(), xs, rest);
            let i = ended(self.shows()) + rest;
            assert(!VTimezone::none(i)) by {
                reveal(<VTimezone as Piece>::none);
                assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !#[trigger] VTimezone::unreadable(ls) by { self.lemma_back(ls); }
            }
            assert forall|t: Seq<char>, v: VTimezone| #[trigger] VTimezone::at(i, t, v) implies Some(t) == after(closes("VTIMEZONE"@) + rest, closes("VTIMEZONE"@)) && self.same_fields(&v) && self.subs_alike(&v) by {
                reveal(<VTimezone as Piece>::at);
                let (ls, vs) = choose|ls: Seq<ContentLine>, vs: Seq<Part>| #[trigger] timezone_of(ls, vs, v) && nested(opens("VTIMEZONE"@), closes("VTIMEZONE"@), i, t, ls, vs);
                self.lemma_of(ls, vs, v);
            }
        }
    }
    impl Shape for VTimezone {
        open spec fn fits(&self) -> bool { self.fields_fit() && all_fits(self.standard@) && all_fits(self.daylight@) }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) && all_alike(self.standard@, v.standard@) && all_alike(self.daylight@, v.daylight@) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    impl Whole for VTimezone {
        proof fn lines_solid(x: Self) { x.core(Seq::empty()); }
        proof fn no_line(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn round(x: Self, rest: Seq<char>) { x.core(rest); }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { lemma_not_end::<VTimezone>(n, rest); }
    }
    impl VTimezone {
        proof fn bare_name() ensures bare("VTIMEZONE"@) { reveal_strlit("VTIMEZONE"); let n = "VTIMEZONE"@; assert(n[0] == 'V' && n[1] == 'T' && n[2] == 'I' && n[3] == 'M' && n[4] == 'E' && n[5] == 'Z' && n[6] == 'O' && n[7] == 'N' && n[8] == 'E'); }
    }
    impl Titled for VTimezone {
        open spec fn title() -> Seq<char> { "VTIMEZONE"@ }
        proof fn title_ok() { VTimezone::bare_name(); }
        proof fn opened(i: Seq<char>, t: Seq<char>, v: Self) { reveal(<VTimezone as Piece>::at); reveal(block); reveal(nested); }
        proof fn opens_with(x: Self, rest: Seq<char>) { x.core(rest); }
    }
    proof fn shown_vtimezone() ensures forall|x: VTimezone| #[trigger] x.shows() == x.lines() { reveal(<VTimezone as Shape>::shows); }
    impl Shape for Component {
        open spec fn fits(&self) -> bool { match *self { Component::Alarm(x) => x.fits(), Component::Event(x) => x.fits(), Component::Freebusy(x) => x.fits(), Component::Journal(x) => x.fits(), Component::Todo(x) => x.fits(), Component::Timezone(x) => x.fits(), } }
        open spec fn alike(&self, v: &Self) -> bool { match (*self, *v) { (Component::Alarm(x), Component::Alarm(y)) => x.alike(&y), (Component::Event(x), Component::Event(y)) => x.alike(&y), (Component::Freebusy(x), Component::Freebusy(y)) => x.alike(&y), (Component::Journal(x), Component::Journal(y)) => x.alike(&y), (Component::Todo(x), Component::Todo(y)) => x.alike(&y), (Component::Timezone(x), Component::Timezone(y)) => x.alike(&y), _ => false } }
        open spec fn shows(&self) -> Texts { match *self { Component::Alarm(x) => x.shows(), Component::Event(x) => x.shows(), Component::Freebusy(x) => x.shows(), Component::Journal(x) => x.shows(), Component::Todo(x) => x.shows(), Component::Timezone(x) => x.shows(), } }
    }
    impl Whole for Component {
        proof fn lines_solid(x: Self) { match x { Component::Alarm(x) => VAlarm::lines_solid(x), Component::Event(x) => VEvent::lines_solid(x), Component::Freebusy(x) => VFreebusy::lines_solid(x), Component::Journal(x) => VJournal::lines_solid(x), Component::Todo(x) => VTodo::lines_solid(x), Component::Timezone(x) => VTimezone::lines_solid(x), } }
        proof fn no_line(x: Self, rest: Seq<char>) { match x { Component::Alarm(x) => VAlarm::no_line(x, rest), Component::Event(x) => VEvent::no_line(x, rest), Component::Freebusy(x) => VFreebusy::no_line(x, rest), Component::Journal(x) => VJournal::no_line(x, rest), Component::Todo(x) => VTodo::no_line(x, rest), Component::Timezone(x) => VTimezone::no_line(x, rest), } }
        proof fn round(x: Self, rest: Seq<char>) {
            match x { Component::Alarm(x) => round_alarms(x, rest), Component::Event(x) => round_events(x, rest), Component::Freebusy(x) => round_freebusy(x, rest), Component::Journal(x) => round_journals(x, rest), Component::Todo(x) => round_todo(x, rest), Component::Timezone(x) => round_timezones(x, rest), }
        }
        proof fn not_end(n: Seq<char>, rest: Seq<char>) { reveal(<Component as Piece>::at); lemma_not_end::<VAlarm>(n, rest); lemma_not_end::<VEvent>(n, rest); lemma_not_end::<VFreebusy>(n, rest); lemma_not_end::<VJournal>(n, rest); lemma_not_end::<VTodo>(n, rest); lemma_not_end::<VTimezone>(n, rest); }
    }
    proof fn lemma_component_titles() ensures VAlarm::title() != VEvent::title(), VAlarm::title() != VFreebusy::title(), VAlarm::title() != VJournal::title(), VAlarm::title() != VTodo::title(), VAlarm::title() != VTimezone::title(), VEvent::title() != VAlarm::title(), VEvent::title() != VFreebusy::title(), VEvent::title() != VJournal::title(), VEvent::title() != VTodo::title(), VEvent::title() != VTimezone::title(), VFreebusy::title() != VAlarm::title(), VFreebusy::title() != VEvent::title(), VFreebusy::title() != VJournal::title(), VFreebusy::title() != VTodo::title(), VFreebusy::title() != VTimezone::title(), VJournal::title() != VAlarm::title(), VJournal::title() != VEvent::title(), VJournal::title() != VFreebusy::title(), VJournal::title() != VTodo::title(), VJournal::title() != VTimezone::title(), VTodo::title() != VAlarm::title(), VTodo::title() != VEvent::title(), VTodo::title() != VFreebusy::title(), VTodo::title() != VJournal::title(), VTodo::title() != VTimezone::title(), VTimezone::title() != VAlarm::title(), VTimezone::title() != VEvent::title(), VTimezone::title() != VFreebusy::title(), VTimezone::title() != VJournal::title(), VTimezone::title() != VTodo::title()
    { reveal_strlit("VALARM"); reveal_strlit("VEVENT"); reveal_strlit("VFREEBUSY"); reveal_strlit("VJOURNAL"); reveal_strlit("VTODO"); reveal_strlit("VTIMEZONE"); }
    /// no other kind is read from it
    proof fn round_alarms(x: VAlarm, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Component::none(i) && forall|t: Seq<char>, v: Component| #[trigger] Component::at(i, t, v) ==> t == rest && Component::Alarm(x).alike(&v) })
    {
        reveal(<Component as Piece>::at); reveal(<Component as Piece>::none);
        lemma_component_titles();
        VAlarm::round(x, rest);
        lemma_other::<VAlarm, VEvent>(x, rest); lemma_other::<VAlarm, VFreebusy>(x, rest); lemma_other::<VAlarm, VJournal>(x, rest); lemma_other::<VAlarm, VTodo>(x, rest); lemma_other::<VAlarm, VTimezone>(x, rest);
    }
    pub open spec fn as_alarms(xs: Seq<VAlarm>) -> Seq<Component> { Seq::new(xs.len(), |k: int| Component::Alarm(xs[k])) }
    proof fn lemma_as_alarms(xs: Seq<VAlarm>)
        requires all_fits(xs)
        ensures all_fits(as_alarms(xs)), wholes(as_alarms(xs)) == wholes(xs)
    {
        let ys = as_alarms(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_alarms(xs: Seq<Component>, vs: Seq<Component>)
        requires all_alike(xs, vs)
        ensures all_alike(its_alarms(xs), its_alarms(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_alarms(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (its_alarms(a), its_alarms(b));
            assert forall|k: int| 0 <= k < its_alarms(xs).len() implies (#[trigger] its_alarms(xs)[k]).alike(&its_alarms(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_alarms(a: Seq<Component>, b: Seq<Component>)
        ensures its_alarms(a + b) == its_alarms(a) + its_alarms(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(its_alarms(a) + its_alarms(b) =~= its_alarms(a)); } else {
            lemma_add_alarms(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(its_alarms(a + b) =~= its_alarms(a) + its_alarms(b));
        }
    }
    proof fn lemma_own_alarms(xs: Seq<VAlarm>)
        ensures its_alarms(as_alarms(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_alarms(xs.drop_last());
            assert(as_alarms(xs).drop_last() =~= as_alarms(xs.drop_last()));
            assert(its_alarms(as_alarms(xs)) =~= xs);
        } else { assert(its_alarms(as_alarms(xs)) =~= xs); }
    }
    proof fn lemma_not_alarms(xs: Seq<Component>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Alarm)
        ensures its_alarms(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Alarm));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Alarm) by { assert(!(xs[k] is Alarm)); }
            lemma_not_alarms(xs.drop_last());
        }
    }
    /// no other kind is read from it
    proof fn round_events(x: VEvent, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Component::none(i) && forall|t: Seq<char>, v: Component| #[trigger] Component::at(i, t, v) ==> t == rest && Component::Event(x).alike(&v) })
    {
        reveal(<Component as Piece>::at); reveal(<Component as Piece>::none);
        lemma_component_titles();
        VEvent::round(x, rest);
        lemma_other::<VEvent, VAlarm>(x, rest); lemma_other::<VEvent, VFreebusy>(x, rest); lemma_other::<VEvent, VJournal>(x, rest); lemma_other::<VEvent, VTodo>(x, rest); lemma_other::<VEvent, VTimezone>(x, rest);
    }
    pub open spec fn as_events(xs: Seq<VEvent>) -> Seq<Component> { Seq::new(xs.len(), |k: int| Component::Event(xs[k])) }
    proof fn lemma_as_events(xs: Seq<VEvent>)
        requires all_fits(xs)
        ensures all_fits(as_events(xs)), wholes(as_events(xs)) == wholes(xs)
    {
        let ys = as_events(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_events(xs: Seq<Component>, vs: Seq<Component>)
        requires all_alike(xs, vs)
        ensures all_alike(its_events(xs), its_events(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_events(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (its_events(a), its_events(b));
            assert forall|k: int| 0 <= k < its_events(xs).len() implies (#[trigger] its_events(xs)[k]).alike(&its_events(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_events(a: Seq<Component>, b: Seq<Component>)
        ensures its_events(a + b) == its_events(a) + its_events(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(its_events(a) + its_events(b) =~= its_events(a)); } else {
            lemma_add_events(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(its_events(a + b) =~= its_events(a) + its_events(b));
        }
    }
    proof fn lemma_own_events(xs: Seq<VEvent>)
        ensures its_events(as_events(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_events(xs.drop_last());
            assert(as_events(xs).drop_last() =~= as_events(xs.drop_last()));
            assert(its_events(as_events(xs)) =~= xs);
        } else { assert(its_events(as_events(xs)) =~= xs); }
    }
    proof fn lemma_not_events(xs: Seq<Component>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Event)
        ensures its_events(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Event));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Event) by { assert(!(xs[k] is Event)); }
            lemma_not_events(xs.drop_last());
        }
    }
    /// no other kind is read from it
    proof fn round_freebusy(x: VFreebusy, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Component::none(i) && forall|t: Seq<char>, v: Component| #[trigger] Component::at(i, t, v) ==> t == rest && Component::Freebusy(x).alike(&v) })
    {
        reveal(<Component as Piece>::at); reveal(<Component as Piece>::none);
        lemma_component_titles();
        VFreebusy::round(x, rest);
        lemma_other::<VFreebusy, VAlarm>(x, rest); lemma_other::<VFreebusy, VEvent>(x, rest); lemma_other::<VFreebusy, VJournal>(x, rest); lemma_other::<VFreebusy, VTodo>(x, rest); lemma_other::<VFreebusy, VTimezone>(x, rest);
    }
    pub open spec fn as_freebusy(xs: Seq<VFreebusy>) -> Seq<Component> { Seq::new(xs.len(), |k: int| Component::Freebusy(xs[k])) }
    proof fn lemma_as_freebusy(xs: Seq<VFreebusy>)
        requires all_fits(xs)
        ensures all_fits(as_freebusy(xs)), wholes(as_freebusy(xs)) == wholes(xs)
    {
        let ys = as_freebusy(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_freebusy(xs: Seq<Component>, vs: Seq<Component>)
        requires all_alike(xs, vs)
        ensures all_alike(its_freebusy(xs), its_freebusy(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_freebusy(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (its_freebusy(a), its_freebusy(b));
            assert forall|k: int| 0 <= k < its_freebusy(xs).len() implies (#[trigger] its_freebusy(xs)[k]).alike(&its_freebusy(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_freebusy(a: Seq<Component>, b: Seq<Component>)
        ensures its_freebusy(a + b) == its_freebusy(a) + its_freebusy(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(its_freebusy(a) + its_freebusy(b) =~= its_freebusy(a)); } else {
            lemma_add_freebusy(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(its_freebusy(a + b) =~= its_freebusy(a) + its_freebusy(b));
        }
    }
    proof fn lemma_own_freebusy(xs: Seq<VFreebusy>)
        ensures its_freebusy(as_freebusy(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_freebusy(xs.drop_last());
            assert(as_freebusy(xs).drop_last() =~= as_freebusy(xs.drop_last()));
            assert(its_freebusy(as_freebusy(xs)) =~= xs);
        } else { assert(its_freebusy(as_freebusy(xs)) =~= xs); }
    }
    proof fn lemma_not_freebusy(xs: Seq<Component>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Freebusy)
        ensures its_freebusy(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Freebusy));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Freebusy) by { assert(!(xs[k] is Freebusy)); }
            lemma_not_freebusy(xs.drop_last());
        }
    }
    /// no other kind is read from it
    proof fn round_journals(x: VJournal, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Component::none(i) && forall|t: Seq<char>, v: Component| #[trigger] Component::at(i, t, v) ==> t == rest && Component::Journal(x).alike(&v) })
    {
        reveal(<Component as Piece>::at); reveal(<Component as Piece>::none);
        lemma_component_titles();
        VJournal::round(x, rest);
        lemma_other::<VJournal, VAlarm>(x, rest); lemma_other::<VJournal, VEvent>(x, rest); lemma_other::<VJournal, VFreebusy>(x, rest); lemma_other::<VJournal, VTodo>(x, rest); lemma_other::<VJournal, VTimezone>(x, rest);
    }
    pub open spec fn as_journals(xs: Seq<VJournal>) -> Seq<Component> { Seq::new(xs.len(), |k: int| Component::Journal(xs[k])) }
    proof fn lemma_as_journals(xs: Seq<VJournal>)
        requires all_fits(xs)
        ensures all_fits(as_journals(xs)), wholes(as_journals(xs)) == wholes(xs)
    {
        let ys = as_journals(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_journals(xs: Seq<Component>, vs: Seq<Component>)
        requires all_alike(xs, vs)
        ensures all_alike(its_journals(xs), its_journals(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_journals(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (its_journals(a), its_journals(b));
            assert forall|k: int| 0 <= k < its_journals(xs).len() implies (#[trigger] its_journals(xs)[k]).alike(&its_journals(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_journals(a: Seq<Component>, b: Seq<Component>)
        ensures its_journals(a + b) == its_journals(a) + its_journals(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(its_journals(a) + its_journals(b) =~= its_journals(a)); } else {
            lemma_add_journals(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(its_journals(a + b) =~= its_journals(a) + its_journals(b));
        }
    }
    proof fn lemma_own_journals(xs: Seq<VJournal>)
        ensures its_journals(as_journals(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_journals(xs.drop_last());
            assert(as_journals(xs).drop_last() =~= as_journals(xs.drop_last()));
            assert(its_journals(as_journals(xs)) =~= xs);
        } else { assert(its_journals(as_journals(xs)) =~= xs); }
    }
    proof fn lemma_not_journals(xs: Seq<Component>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Journal)
        ensures its_journals(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Journal));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Journal) by { assert(!(xs[k] is Journal)); }
            lemma_not_journals(xs.drop_last());
        }
    }
    /// no other kind is read from it
    proof fn round_todo(x: VTodo, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Component::none(i) && forall|t: Seq<char>, v: Component| #[trigger] Component::at(i, t, v) ==> t == rest && Component::Todo(x).alike(&v) })
    {
        reveal(<Component as Piece>::at); reveal(<Component as Piece>::none);
        lemma_component_titles();
        VTodo::round(x, rest);
        lemma_other::<VTodo, VAlarm>(x, rest); lemma_other::<VTodo, VEvent>(x, rest); lemma_other::<VTodo, VFreebusy>(x, rest); lemma_other::<VTodo, VJournal>(x, rest); lemma_other::<VTodo, VTimezone>(x, rest);
    }
    pub open spec fn as_todo(xs: Seq<VTodo>) -> Seq<Component> { Seq::new(xs.len(), |k: int| Component::Todo(xs[k])) }
    proof fn lemma_as_todo(xs: Seq<VTodo>)
        requires all_fits(xs)
        ensures all_fits(as_todo(xs)), wholes(as_todo(xs)) == wholes(xs)
    {
        let ys = as_todo(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_todo(xs: Seq<Component>, vs: Seq<Component>)
        requires all_alike(xs, vs)
        ensures all_alike(its_todo(xs), its_todo(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_todo(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (its_todo(a), its_todo(b));
            assert forall|k: int| 0 <= k < its_todo(xs).len() implies (#[trigger] its_todo(xs)[k]).alike(&its_todo(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_todo(a: Seq<Component>, b: Seq<Component>)
        ensures its_todo(a + b) == its_todo(a) + its_todo(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(its_todo(a) + its_todo(b) =~= its_todo(a)); } else {
            lemma_add_todo(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(its_todo(a + b) =~= its_todo(a) + its_todo(b));
        }
    }
    proof fn lemma_own_todo(xs: Seq<VTodo>)
        ensures its_todo(as_todo(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_todo(xs.drop_last());
            assert(as_todo(xs).drop_last() =~= as_todo(xs.drop_last()));
            assert(its_todo(as_todo(xs)) =~= xs);
        } else { assert(its_todo(as_todo(xs)) =~= xs); }
    }
    proof fn lemma_not_todo(xs: Seq<Component>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Todo)
        ensures its_todo(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Todo));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Todo) by { assert(!(xs[k] is Todo)); }
            lemma_not_todo(xs.drop_last());
        }
    }
    /// no other kind is read from it
    proof fn round_timezones(x: VTimezone, rest: Seq<char>)
        requires x.fits()
        ensures ({ let i = ended(x.shows()) + rest; !Component::none(i) && forall|t: Seq<char>, v: Component| #[trigger] Component::at(i, t, v) ==> t == rest && Component::Timezone(x).alike(&v) })
    {
        reveal(<Component as Piece>::at); reveal(<Component as Piece>::none);
        lemma_component_titles();
        VTimezone::round(x, rest);
        lemma_other::<VTimezone, VAlarm>(x, rest); lemma_other::<VTimezone, VEvent>(x, rest); lemma_other::<VTimezone, VFreebusy>(x, rest); lemma_other::<VTimezone, VJournal>(x, rest); lemma_other::<VTimezone, VTodo>(x, rest);
    }
    pub open spec fn as_timezones(xs: Seq<VTimezone>) -> Seq<Component> { Seq::new(xs.len(), |k: int| Component::Timezone(xs[k])) }
    proof fn lemma_as_timezones(xs: Seq<VTimezone>)
        requires all_fits(xs)
        ensures all_fits(as_timezones(xs)), wholes(as_timezones(xs)) == wholes(xs)
    {
        let ys = as_timezones(xs);
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]).fits() by { assert(xs[k].fits()); }
        lemma_wrapped(xs, ys);
    }
    /// components of a kind stay of that kind
    proof fn lemma_kept_timezones(xs: Seq<Component>, vs: Seq<Component>)
        requires all_alike(xs, vs)
        ensures all_alike(its_timezones(xs), its_timezones(vs))
        decreases xs.len()
    {
        if xs.len() > 0 {
            let (a, b) = (xs.drop_last(), vs.drop_last());
            assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).alike(&b[k]) by { assert(xs[k].alike(&vs[k])); }
            lemma_kept_timezones(a, b);
            assert(xs[xs.len() - 1].alike(&vs[vs.len() - 1]));
            let (c, d) = (its_timezones(a), its_timezones(b));
            assert forall|k: int| 0 <= k < its_timezones(xs).len() implies (#[trigger] its_timezones(xs)[k]).alike(&its_timezones(vs)[k]) by { if k < c.len() { assert(c[k].alike(&d[k])); } }
        }
    }
    proof fn lemma_add_timezones(a: Seq<Component>, b: Seq<Component>)
        ensures its_timezones(a + b) == its_timezones(a) + its_timezones(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(its_timezones(a) + its_timezones(b) =~= its_timezones(a)); } else {
            lemma_add_timezones(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert(its_timezones(a + b) =~= its_timezones(a) + its_timezones(b));
        }
    }
    proof fn lemma_own_timezones(xs: Seq<VTimezone>)
        ensures its_timezones(as_timezones(xs)) == xs
        decreases xs.len()
    {
        if xs.len() > 0 {
            lemma_own_timezones(xs.drop_last());
            assert(as_timezones(xs).drop_last() =~= as_timezones(xs.drop_last()));
            assert(its_timezones(as_timezones(xs)) =~= xs);
        } else { assert(its_timezones(as_timezones(xs)) =~= xs); }
    }
    proof fn lemma_not_timezones(xs: Seq<Component>)
        requires forall|k: int| 0 <= k < xs.len() ==> !(#[trigger] xs[k] is Timezone)
        ensures its_timezones(xs).len() == 0
        decreases xs.len()
    {
        if xs.len() > 0 {
            assert(!(xs[xs.len() - 1] is Timezone));
            assert forall|k: int| 0 <= k < xs.drop_last().len() implies !(#[trigger] xs.drop_last()[k] is Timezone) by { assert(!(xs[k] is Timezone)); }
            lemma_not_timezones(xs.drop_last());
        }
    }
    pub open spec fn all_components(alarms: Seq<VAlarm>, events: Seq<VEvent>, freebusy: Seq<VFreebusy>, journals: Seq<VJournal>, todo: Seq<VTodo>, timezones: Seq<VTimezone>) -> Seq<Component> { as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo) + as_timezones(timezones) }
    proof fn lemma_all_components(alarms: Seq<VAlarm>, events: Seq<VEvent>, freebusy: Seq<VFreebusy>, journals: Seq<VJournal>, todo: Seq<VTodo>, timezones: Seq<VTimezone>)
        requires all_fits(alarms), all_fits(events), all_fits(freebusy), all_fits(journals), all_fits(todo), all_fits(timezones)
        ensures all_fits(all_components(alarms, events, freebusy, journals, todo, timezones)), wholes(all_components(alarms, events, freebusy, journals, todo, timezones)) == wholes(alarms) + wholes(events) + wholes(freebusy) + wholes(journals) + wholes(todo) + wholes(timezones),
            forall|vs: Seq<Component>| #[trigger] all_alike(all_components(alarms, events, freebusy, journals, todo, timezones), vs) ==> all_alike(alarms, its_alarms(vs)) && all_alike(events, its_events(vs)) && all_alike(freebusy, its_freebusy(vs)) && all_alike(journals, its_journals(vs)) && all_alike(todo, its_todo(vs)) && all_alike(timezones, its_timezones(vs)),
    {
        lemma_as_alarms(alarms); lemma_own_alarms(alarms);
        lemma_not_events(as_alarms(alarms));
        lemma_not_freebusy(as_alarms(alarms));
        lemma_not_journals(as_alarms(alarms));
        lemma_not_todo(as_alarms(alarms));
        lemma_not_timezones(as_alarms(alarms));
        lemma_as_events(events); lemma_own_events(events);
        lemma_not_alarms(as_events(events));
        lemma_not_freebusy(as_events(events));
        lemma_not_journals(as_events(events));
        lemma_not_todo(as_events(events));
        lemma_not_timezones(as_events(events));
        lemma_wholes_add(as_alarms(alarms), as_events(events)); lemma_fits_add(as_alarms(alarms), as_events(events));
        lemma_add_alarms(as_alarms(alarms), as_events(events));
        lemma_add_events(as_alarms(alarms), as_events(events));
        lemma_add_freebusy(as_alarms(alarms), as_events(events));
        lemma_add_journals(as_alarms(alarms), as_events(events));
        lemma_add_todo(as_alarms(alarms), as_events(events));
        lemma_add_timezones(as_alarms(alarms), as_events(events));
        lemma_as_freebusy(freebusy); lemma_own_freebusy(freebusy);
        lemma_not_alarms(as_freebusy(freebusy));
        lemma_not_events(as_freebusy(freebusy));
        lemma_not_journals(as_freebusy(freebusy));
        lemma_not_todo(as_freebusy(freebusy));
        lemma_not_timezones(as_freebusy(freebusy));
        lemma_wholes_add(as_alarms(alarms) + as_events(events), as_freebusy(freebusy)); lemma_fits_add(as_alarms(alarms) + as_events(events), as_freebusy(freebusy));
        lemma_add_alarms(as_alarms(alarms) + as_events(events), as_freebusy(freebusy));
        lemma_add_events(as_alarms(alarms) + as_events(events), as_freebusy(freebusy));
        lemma_add_freebusy(as_alarms(alarms) + as_events(events), as_freebusy(freebusy));
        lemma_add_journals(as_alarms(alarms) + as_events(events), as_freebusy(freebusy));
        lemma_add_todo(as_alarms(alarms) + as_events(events), as_freebusy(freebusy));
        lemma_add_timezones(as_alarms(alarms) + as_events(events), as_freebusy(freebusy));
        lemma_as_journals(journals); lemma_own_journals(journals);
        lemma_not_alarms(as_journals(journals));
        lemma_not_events(as_journals(journals));
        lemma_not_freebusy(as_journals(journals));
        lemma_not_todo(as_journals(journals));
        lemma_not_timezones(as_journals(journals));
        lemma_wholes_add(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals)); lemma_fits_add(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals));
        lemma_add_alarms(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals));
        lemma_add_events(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals));
        lemma_add_freebusy(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals));
        lemma_add_journals(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals));
        lemma_add_todo(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals));
        lemma_add_timezones(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy), as_journals(journals));
        lemma_as_todo(todo); lemma_own_todo(todo);
        lemma_not_alarms(as_todo(todo));
        lemma_not_events(as_todo(todo));
        lemma_not_freebusy(as_todo(todo));
        lemma_not_journals(as_todo(todo));
        lemma_not_timezones(as_todo(todo));
        lemma_wholes_add(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo)); lemma_fits_add(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo));
        lemma_add_alarms(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo));
        lemma_add_events(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo));
        lemma_add_freebusy(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo));
        lemma_add_journals(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo));
        lemma_add_todo(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo));
        lemma_add_timezones(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals), as_todo(todo));
        lemma_as_timezones(timezones); lemma_own_timezones(timezones);
        lemma_not_alarms(as_timezones(timezones));
        lemma_not_events(as_timezones(timezones));
        lemma_not_freebusy(as_timezones(timezones));
        lemma_not_journals(as_timezones(timezones));
        lemma_not_todo(as_timezones(timezones));
        lemma_wholes_add(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones)); lemma_fits_add(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones));
        lemma_add_alarms(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones));
        lemma_add_events(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones));
        lemma_add_freebusy(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones));
        lemma_add_journals(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones));
        lemma_add_todo(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones));
        lemma_add_timezones(as_alarms(alarms) + as_events(events) + as_freebusy(freebusy) + as_journals(journals) + as_todo(todo), as_timezones(timezones));
        assert(its_alarms(all_components(alarms, events, freebusy, journals, todo, timezones)) =~= alarms);
        assert(its_events(all_components(alarms, events, freebusy, journals, todo, timezones)) =~= events);
        assert(its_freebusy(all_components(alarms, events, freebusy, journals, todo, timezones)) =~= freebusy);
        assert(its_journals(all_components(alarms, events, freebusy, journals, todo, timezones)) =~= journals);
        assert(its_todo(all_components(alarms, events, freebusy, journals, todo, timezones)) =~= todo);
        assert(its_timezones(all_components(alarms, events, freebusy, journals, todo, timezones)) =~= timezones);
        assert forall|vs: Seq<Component>| #[trigger] all_alike(all_components(alarms, events, freebusy, journals, todo, timezones), vs) implies all_alike(alarms, its_alarms(vs)) && all_alike(events, its_events(vs)) && all_alike(freebusy, its_freebusy(vs)) && all_alike(journals, its_journals(vs)) && all_alike(todo, its_todo(vs)) && all_alike(timezones, its_timezones(vs)) by { lemma_kept_alarms(all_components(alarms, events, freebusy, journals, todo, timezones), vs); lemma_kept_events(all_components(alarms, events, freebusy, journals, todo, timezones), vs); lemma_kept_freebusy(all_components(alarms, events, freebusy, journals, todo, timezones), vs); lemma_kept_journals(all_components(alarms, events, freebusy, journals, todo, timezones), vs); lemma_kept_todo(all_components(alarms, events, freebusy, journals, todo, timezones), vs); lemma_kept_timezones(all_components(alarms, events, freebusy, journals, todo, timezones), vs); }
    }
    impl VCalendar {
        proof fn bare_name() ensures bare("VCALENDAR"@) { reveal_strlit("VCALENDAR"); let n = "VCALENDAR"@; assert(n[0] == 'V' && n[1] == 'C' && n[2] == 'A' && n[3] == 'L' && n[4] == 'E' && n[5] == 'N' && n[6] == 'D' && n[7] == 'A' && n[8] == 'R'); }
    }
    proof fn lemma_calendar_end(rest: Seq<char>)
        ensures after(closes("VCALENDAR"@) + rest, calendar_end()) is Some
    {
        reveal_strlit("END:"); reveal_strlit("VCALENDAR"); reveal_strlit("END:VCALENDAR");
        assert(closes("VCALENDAR"@) + rest =~= calendar_end() + ("\r\n"@ + rest));
        lemma_after(calendar_end(), "\r\n"@ + rest);
    }
    proof fn lemma_app_app(l: Texts, a: Texts, b: Texts)
        ensures app(app(l, a), b) == app(l, a + b)
    { reveal(app); assert(l + a + b =~= l + (a + b)); }
    impl VCalendar {
        pub open spec fn all_subs(&self) -> Seq<Component> { all_components(self.alarms@, self.events@, self.freebusy@, self.journals@, self.todo@, self.timezones@) }
        pub open spec fn subs_alike(&self, v: &VCalendar) -> bool { all_alike(self.alarms@, v.alarms@) && all_alike(self.events@, v.events@) && all_alike(self.freebusy@, v.freebusy@) && all_alike(self.journals@, v.journals@) && all_alike(self.todo@, v.todo@) && all_alike(self.timezones@, v.timezones@) }
        proof fn lemma_lines(&self)
            requires all_fits(self.alarms@), all_fits(self.events@), all_fits(self.freebusy@), all_fits(self.journals@), all_fits(self.todo@), all_fits(self.timezones@)
            ensures self.shows() == closed("VCALENDAR"@, self.l6(), wholes(self.all_subs())), all_fits(self.all_subs())
        {
            shown_vcalendar(); shown_valarm(); shown_vevent(); shown_vfreebusy(); shown_vjournal(); shown_vtodo(); shown_vtimezone();
            lemma_subs(self.l6(), "ALARMS"@, self.alarms@, self.alarms@.len());
            assert(self.alarms@.take(self.alarms@.len() as int) =~= self.alarms@);
            lemma_subs(self.l7(), "EVENTS"@, self.events@, self.events@.len());
            assert(self.events@.take(self.events@.len() as int) =~= self.events@);
            lemma_subs(self.l8(), "FREEBUSY"@, self.freebusy@, self.freebusy@.len());
            assert(self.freebusy@.take(self.freebusy@.len() as int) =~= self.freebusy@);
            lemma_subs(self.l9(), "JOURNALS"@, self.journals@, self.journals@.len());
            assert(self.journals@.take(self.journals@.len() as int) =~= self.journals@);
            lemma_subs(self.l10(), "TODO"@, self.todo@, self.todo@.len());
            assert(self.todo@.take(self.todo@.len() as int) =~= self.todo@);
            lemma_subs(self.l11(), "TIMEZONES"@, self.timezones@, self.timezones@.len());
            assert(self.timezones@.take(self.timezones@.len() as int) =~= self.timezones@);
            lemma_app_app(self.l6(), wholes(self.alarms@), wholes(self.events@));
            lemma_app_app(self.l6(), wholes(self.alarms@) + wholes(self.events@), wholes(self.freebusy@));
            lemma_app_app(self.l6(), wholes(self.alarms@) + wholes(self.events@) + wholes(self.freebusy@), wholes(self.journals@));
            lemma_app_app(self.l6(), wholes(self.alarms@) + wholes(self.events@) + wholes(self.freebusy@) + wholes(self.journals@), wholes(self.todo@));
            lemma_app_app(self.l6(), wholes(self.alarms@) + wholes(self.events@) + wholes(self.freebusy@) + wholes(self.journals@) + wholes(self.todo@), wholes(self.timezones@));
            lemma_all_components(self.alarms@, self.events@, self.freebusy@, self.journals@, self.todo@, self.timezones@);
        }
        proof fn lemma_of(&self, ls: Seq<ContentLine>, vs: Seq<Component>, v: VCalendar)
            requires self.fields_fit(), all_fits(self.alarms@), all_fits(self.events@), all_fits(self.freebusy@), all_fits(self.journals@), all_fits(self.todo@), all_fits(self.timezones@), lines_of(ls) == flat_lines(self.parts()), calendar_of(ls, vs, v), all_alike(self.all_subs(), vs)
            ensures self.same_fields(&v), self.subs_alike(&v)
        {
            self.lemma_back(ls);
            lemma_all_components(self.alarms@, self.events@, self.freebusy@, self.journals@, self.todo@, self.timezones@);
            let e = choose|e: VCalendar| #[trigger] VCalendar::read(ls, ls.len(), e) && v == (VCalendar { alarms: v.alarms, events: v.events, freebusy: v.freebusy, journals: v.journals, todo: v.todo, timezones: v.timezones, ..e }) && v.alarms@ == its_alarms(vs) && v.events@ == its_events(vs) && v.freebusy@ == its_freebusy(vs) && v.journals@ == its_journals(vs) && v.todo@ == its_todo(vs) && v.timezones@ == its_timezones(vs);
            assert(self.same_fields(&e));
            assert(self.same_fields(&v)) by { reveal(VCalendar::same_fields); }
        }
    }
    impl Shape for VCalendar {
        open spec fn fits(&self) -> bool { self.fields_fit() && all_fits(self.alarms@) && all_fits(self.events@) && all_fits(self.freebusy@) && all_fits(self.journals@) && all_fits(self.todo@) && all_fits(self.timezones@) }
        open spec fn alike(&self, v: &Self) -> bool { self.same_fields(v) && all_alike(self.alarms@, v.alarms@) && all_alike(self.events@, v.events@) && all_alike(self.freebusy@, v.freebusy@) && all_alike(self.journals@, v.journals@) && all_alike(self.todo@, v.todo@) && all_alike(self.timezones@, v.timezones@) }
        #[verifier::opaque]
        open spec fn shows(&self) -> Texts { self.lines() }
    }
    proof fn shown_vcalendar() ensures forall|x: VCalendar| #[trigger] x.shows() == x.lines() { reveal(<VCalendar as Shape>::shows); }
    impl VCalendar {
        proof fn core(&self, rest: Seq<char>)
            requires self.fits()
            ensures all_solid(self.shows()), !VCalendar::none(ended(self.shows()) + rest),
                forall|t: Seq<char>, v: VCalendar| #[trigger] VCalendar::at(ended(self.shows()) + rest, t, v) ==> self.alike(&v),
        {
            VCalendar::bare_name(); lemma_calendar_end(rest);
            self.lemma_written();
            self.lemma_lines();
            let xs = self.all_subs();
            lemma_nesting::<VCalendar, Component>("VCALENDAR"@, calendar_end(), self.l6(), self.parts(), xs, rest);
            let i = ended(self.shows()) + rest;
            assert(!VCalendar::none(i)) by {
                reveal(<VCalendar as Piece>::none);
                assert forall|ls: Seq<ContentLine>| lines_of(ls) == flat_lines(self.parts()) implies !#[trigger] VCalendar::unreadable(ls) by { self.lemma_back(ls); }
            }
            assert forall|t: Seq<char>, v: VCalendar| #[trigger] VCalendar::at(i, t, v) implies Some(t) == after(closes("VCALENDAR"@) + rest, calendar_end()) && self.same_fields(&v) && self.subs_alike(&v) by {
                reveal(<VCalendar as Piece>::at);
                let (ls, vs) = choose|ls: Seq<ContentLine>, vs: Seq<Component>| #[trigger] calendar_of(ls, vs, v) && nested(opens("VCALENDAR"@), calendar_end(), i, t, ls, vs);
                self.lemma_of(ls, vs, v);
            }
        }
    }
    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_vcalendar(c: VCalendar, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<VCalendar as FromStr>::parse_err(s), forall|v: VCalendar| #[trigger] <VCalendar as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }
    fn vx_again_vcalendar(c: &VCalendar)
        requires c.fits()
    {
        if let Ok(s) = ical(c) {
            proof { shown_vcalendar(); lemma_again_vcalendar(*c, s@); }
            let r = <VCalendar as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        } else { assert(false); }
    }
    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_vevent(c: VEvent, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<VEvent as FromStr>::parse_err(s), forall|v: VEvent| #[trigger] <VEvent as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }
    fn vx_again_vevent(c: &VEvent)
        requires c.fits()
    {
        if let Ok(s) = ical(c) {
            proof { shown_vevent(); lemma_again_vevent(*c, s@); }
            let r = <VEvent as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        } else { assert(false); }
    }
    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_vtodo(c: VTodo, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<VTodo as FromStr>::parse_err(s), forall|v: VTodo| #[trigger] <VTodo as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }
    fn vx_again_vtodo(c: &VTodo)
        requires c.fits()
    {
        if let Ok(s) = ical(c) {
            proof { shown_vtodo(); lemma_again_vtodo(*c, s@); }
            let r = <VTodo as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        } else { assert(false); }
    }
    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_vjournal(c: VJournal, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<VJournal as FromStr>::parse_err(s), forall|v: VJournal| #[trigger] <VJournal as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }
    fn vx_again_vjournal(c: &VJournal)
        requires c.fits()
    {
        if let Ok(s) = ical(c) {
            proof { shown_vjournal(); lemma_again_vjournal(*c, s@); }
            let r = <VJournal as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        } else { assert(false); }
    }
    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_vfreebusy(c: VFreebusy, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<VFreebusy as FromStr>::parse_err(s), forall|v: VFreebusy| #[trigger] <VFreebusy as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }
    fn vx_again_vfreebusy(c: &VFreebusy)
        requires c.fits()
    {
        if let Ok(s) = ical(c) {
            proof { shown_vfreebusy(); lemma_again_vfreebusy(*c, s@); }
            let r = <VFreebusy as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        } else { assert(false); }
    }
    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_vtimezone(c: VTimezone, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<VTimezone as FromStr>::parse_err(s), forall|v: VTimezone| #[trigger] <VTimezone as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }
    fn vx_again_vtimezone(c: &VTimezone)
        requires c.fits()
    {
        if let Ok(s) = ical(c) {
            proof { shown_vtimezone(); lemma_again_vtimezone(*c, s@); }
            let r = <VTimezone as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        } else { assert(false); }
    }
    /// however its lines are folded, what is written for a component is read as that component
    pub proof fn lemma_again_valarm(c: VAlarm, s: Seq<char>)
        requires c.fits(), writes(s, c.shows())
        ensures !<VAlarm as FromStr>::parse_err(s), forall|v: VAlarm| #[trigger] <VAlarm as FromStr>::parse_ok(s, v) ==> c.alike(&v)
    {
        c.core(Seq::empty());
        lemma_seen(s, c.shows());
        assert(ended(c.shows()) + Seq::<char>::empty() =~= unfolded(s));
    }
    fn vx_again_valarm(c: &VAlarm)
        requires c.fits()
    {
        if let Ok(s) = ical(c) {
            proof { shown_valarm(); lemma_again_valarm(*c, s@); }
            let r = <VAlarm as FromStr>::from_str(&s);
            assert(r is Ok && c.alike(&r->Ok_0));
        } else { assert(false); }
    }
}
