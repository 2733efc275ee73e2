// The values of properties, as text.
pub mod leaf {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    use crate::xstd::fmt::Display;
    use crate::ser::{Serialize, esc, params_text, list_text};
    use crate::properties::*;
    use crate::properties::period::{StartEnd, StartDur};
    use crate::ContentLine;
    use crate::chrono;
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};
    /// parameters, when there are any
    pub open spec fn some_params(p: BTreeMap<String, String>) -> Option<Seq<char>> { if p@.len() == 0 { None } else { Some(params_text(p@)) } }
    //@ rename iter vx_iter
    //@ rename join vx_join
    //@ props C09,C10,C11
    //@ impl crate::properties::text | Display for Text
    open spec fn disp(&self) -> Seq<char> { self.text@ }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::text | Serialize for Text
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { some_params(self.params) }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { esc(self.text@) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::uri | Display for Uri
    open spec fn disp(&self) -> Seq<char> { self.uri@ }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::uri | Serialize for Uri
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { some_params(self.params) }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { esc(self.uri@) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::content_line | Display for ContentLine
    open spec fn disp(&self) -> Seq<char> { self.value@ }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::content_line | Serialize for ContentLine
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { some_params(self.params) }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { esc(self.value@) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::class | Serialize for Class
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { esc(self.disp()) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ props C10,C11
    //@ impl crate::properties::status | Serialize for Status
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::time_transparency | Serialize for TimeTransparency
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::ser | Serialize for chrono::TimeDelta
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::geo | Display for Geo
    open spec fn disp(&self) -> Seq<char> { self.lat.disp() + seq![';'] + self.lon.disp() }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::geo | Serialize for Geo
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    /// the status code with one decimal
    pub open spec fn code_text(x: f32) -> Seq<char> { crate::xstd::fmt::float1_text(x) }
    //@ impl crate::properties::request_status | Serialize for RequestStatus
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { code_text(self.statcode) + seq![';'] + esc(self.statdesc@) + (match self.extdata { Some(e) => seq![';'] + esc(e@), None => Seq::empty() }) }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ tail
        proof {
            let t = code_text(self.statcode) + seq![';'] + esc(self.statdesc@);
            match self.extdata { Some(ref e) => { assert(vx_r->Ok_0@ =~= t + (seq![';'] + esc(e@))); } None => { assert(vx_r->Ok_0@ =~= t + Seq::<char>::empty()); } }
        }
    //@ end
    //@ endimpl
    //@ impl crate::properties::period | Display for StartEnd
    open spec fn disp(&self) -> Seq<char> { self.start.disp() + seq!['/'] + self.end.disp() }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::period | Serialize for StartEnd
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::period | Display for StartDur
    open spec fn disp(&self) -> Seq<char> { self.start.disp() + seq!['/'] + self.duration.disp() }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::period | Serialize for StartDur
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::period | Display for Period
    open spec fn disp(&self) -> Seq<char> { match self { Period::StartEnd(x) => x.disp(), Period::StartDur(x) => x.disp() } }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::period | Serialize for Period
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    pub open spec fn items<T: Display>(v: Seq<T>) -> Seq<char> decreases v.len() {
        if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0].disp() } else { items(v.drop_last()) + seq![','] + v.last().disp() }
    }
    proof fn lemma_items<T: Display>(v: Seq<T>, ts: Seq<String>)
        requires v.len() == ts.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] ts[k])@ == v[k].disp()
        ensures crate::xstd::strings_joined(ts, seq![',']) == items(v)
        decreases v.len()
    {
        if v.len() > 1 {
            assert forall|k: int| 0 <= k < v.drop_last().len() implies (#[trigger] ts.drop_last()[k])@ == v.drop_last()[k].disp() by { assert(ts.drop_last()[k] == ts[k]); }
            lemma_items(v.drop_last(), ts.drop_last());
        } else if v.len() == 1 { assert(ts[0]@ == v[0].disp()); }
    }
    proof fn lemma_all_items<T: Display>(v: Seq<T>)
        ensures forall|ts: Seq<String>| v.len() == ts.len() && (forall|k: int| 0 <= k < v.len() ==> (#[trigger] ts[k])@ == v[k].disp()) ==> #[trigger] crate::xstd::strings_joined(ts, seq![',']) == items(v)
    {
        assert forall|ts: Seq<String>| v.len() == ts.len() && (forall|k: int| 0 <= k < v.len() ==> (#[trigger] ts[k])@ == v[k].disp()) implies #[trigger] crate::xstd::strings_joined(ts, seq![',']) == items(v) by { lemma_items(v, ts); }
    }
    //@ impl crate::properties::rdate | Display for RDate
    open spec fn disp(&self) -> Seq<char> { match self { RDate::Date(v) => items(v@), RDate::Period(v) => items(v@) } }
    //@ method fmt
    //@ head
        proof { assert(","@ =~= seq![',']); match self { RDate::Date(v) => lemma_all_items(v@), RDate::Period(v) => lemma_all_items(v@) } }
    //@ end
    //@ endimpl
    //@ impl crate::properties::rdate | Serialize for RDate
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { match self {
            RDate::Date(v) => if exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]) is DateTime { None } else { Some("VALUE=DATE"@) },
            RDate::Period(_) => Some("VALUE=PERIOD"@),
        } }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::trigger | Serialize for Trigger
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { Some(match self { Trigger::DateTime(_) => "VALUE=DATE-TIME"@, Trigger::Duration(_) => "VALUE=DURATION"@ }) }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { match self { Trigger::DateTime(d) => d.ser(), Trigger::Duration(d) => d.ser() } }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ props C11,C17
    //@ impl crate::properties::recur | Serialize for Freq
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::recur | Serialize for Weekday
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::recur | Display for WeekdayNum
    open spec fn disp(&self) -> Seq<char> { (match self.ord { Some(n) => crate::xstd::fmt::num_text(n as int), None => Seq::empty() }) + self.weekday.disp() }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::recur | Serialize for WeekdayNum
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { self.disp() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ keep
    //@ end
    //@ endimpl
}
// The text of a recurrence rule.
pub mod rule_text {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::ser::{Serialize, list_text};
    use crate::properties::*;
    //@ props C11,C17
    pub open spec fn part(name: Seq<char>, text: Seq<char>) -> Seq<char> { if text.len() == 0 { Seq::empty() } else { name + seq!['='] + text + seq![';'] } }
    /// the parts of a rule, each under its name and ended by a semicolon
    pub open spec fn parts(r: Recur) -> Seq<char> {
        part("FREQ"@, r.freq.ser()) + part("UNTIL"@, r.until.ser()) + part("COUNT"@, r.count.ser()) + part("INTERVAL"@, r.interval.ser())
            + part("BYSECOND"@, r.by_second.ser()) + part("BYMINUTE"@, r.by_minute.ser()) + part("BYHOUR"@, r.by_hour.ser()) + part("BYDAY"@, r.by_day.ser())
            + part("BYMONTHDAY"@, r.by_monthday.ser()) + part("BYYEARDAY"@, r.by_yearday.ser()) + part("BYWEEKNO"@, r.by_weekno.ser()) + part("BYMONTH"@, r.by_month.ser())
            + part("BYSETPOS"@, r.by_setpos.ser()) + part("WKST"@, r.wkst.ser())
    }
    /// a rule has at least its frequency
    proof fn lemma_parts_some(r: Recur)
        ensures parts(r).len() > 0
    {
        hide(list_text); hide(crate::xstd::fmt::num_text); hide(part); hide(crate::properties::recur::freq_token);
        lemma_freq_some(r.freq);
        assert(parts(r).len() >= part("FREQ"@, r.freq.ser()).len());
    }
    proof fn lemma_freq_some(f: Freq)
        ensures f.ser().len() > 0, part("FREQ"@, f.ser()).len() > 0
    {
        reveal_strlit("SECONDLY"); reveal_strlit("MINUTELY"); reveal_strlit("HOURLY"); reveal_strlit("DAILY");
        reveal_strlit("WEEKLY"); reveal_strlit("MONTHLY"); reveal_strlit("YEARLY");
    }
    /// a part written piece by piece
    broadcast proof fn lemma_flat(was: Seq<char>, name: Seq<char>, text: Seq<char>)
        ensures #[trigger] ((was + name).push('=') + text).push(';') == was + ((((Seq::<char>::empty() + name) + "="@) + text) + ";"@)
    {
        reveal_strlit("="); reveal_strlit(";");
        assert(((was + name).push('=') + text).push(';') =~= was + ((((Seq::<char>::empty() + name) + "="@) + text) + ";"@));
    }
    broadcast proof fn lemma_flat_str(was: Seq<char>, name: Seq<char>, text: Seq<char>)
        ensures #[trigger] (was + name + "="@ + text + ";"@) == was + ((((Seq::<char>::empty() + name) + "="@) + text) + ";"@)
    { assert(was + name + "="@ + text + ";"@ =~= was + ((((Seq::<char>::empty() + name) + "="@) + text) + ";"@)); }
    /// one part more
    proof fn lemma_part(was: Seq<char>, name: Seq<char>, text: Seq<char>, now: Seq<char>)
        requires text.len() == 0 ==> now == was, text.len() > 0 ==> now == was + ((((Seq::<char>::empty() + name) + "="@) + text) + ";"@)
        ensures now == was + part(name, text), was.len() == 0 ==> now == part(name, text)
    {
        reveal_strlit("="); reveal_strlit(";");
        assert("="@ =~= seq!['=']); assert(";"@ =~= seq![';']);
        if text.len() > 0 { assert((((Seq::<char>::empty() + name) + "="@) + text) + ";"@ =~= part(name, text)); } else { assert(now =~= was + part(name, text)); }
        if was.len() == 0 { assert(was + part(name, text) =~= part(name, text)); }
    }
    //@ impl crate::properties::recur | Serialize for Recur
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> { None }
    open spec fn attr_spec(&self) -> Option<Seq<char>> { None }
    open spec fn exact() -> bool { true }
    open spec fn ser(&self) -> Seq<char> { parts(*self).drop_last() }
    open spec fn lines(&self) -> Seq<Seq<char>> { Seq::empty() }
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ keep
    //@ end
    //@ method ical
    //@ attr #[verifier::rlimit(100)]
    //@ noreveal
    //@ head
        hide(list_text); hide(crate::xstd::fmt::num_text); hide(part); hide(crate::properties::recur::freq_token);
        broadcast use {lemma_flat, lemma_flat_str};
        let ghost mut acc = Seq::<char>::empty(); let ghost mut was = Seq::<char>::empty();
    //@ before let ical = self.freq.ical()
        proof { assert(s@ =~= acc); was = s@; }
    //@ before let ical = self.until.ical()
        proof { lemma_part(was, "FREQ"@, self.freq.ser(), s@); acc = part("FREQ"@, self.freq.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.count.ical()
        proof { lemma_part(was, "UNTIL"@, self.until.ser(), s@); acc = acc + part("UNTIL"@, self.until.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.interval.ical()
        proof { lemma_part(was, "COUNT"@, self.count.ser(), s@); acc = acc + part("COUNT"@, self.count.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_second.ical()
        proof { lemma_part(was, "INTERVAL"@, self.interval.ser(), s@); acc = acc + part("INTERVAL"@, self.interval.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_minute.ical()
        proof { lemma_part(was, "BYSECOND"@, self.by_second.ser(), s@); acc = acc + part("BYSECOND"@, self.by_second.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_hour.ical()
        proof { lemma_part(was, "BYMINUTE"@, self.by_minute.ser(), s@); acc = acc + part("BYMINUTE"@, self.by_minute.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_day.ical()
        proof { lemma_part(was, "BYHOUR"@, self.by_hour.ser(), s@); acc = acc + part("BYHOUR"@, self.by_hour.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_monthday.ical()
        proof { lemma_part(was, "BYDAY"@, self.by_day.ser(), s@); acc = acc + part("BYDAY"@, self.by_day.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_yearday.ical()
        proof { lemma_part(was, "BYMONTHDAY"@, self.by_monthday.ser(), s@); acc = acc + part("BYMONTHDAY"@, self.by_monthday.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_weekno.ical()
        proof { lemma_part(was, "BYYEARDAY"@, self.by_yearday.ser(), s@); acc = acc + part("BYYEARDAY"@, self.by_yearday.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_month.ical()
        proof { lemma_part(was, "BYWEEKNO"@, self.by_weekno.ser(), s@); acc = acc + part("BYWEEKNO"@, self.by_weekno.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.by_setpos.ical()
        proof { lemma_part(was, "BYMONTH"@, self.by_month.ser(), s@); acc = acc + part("BYMONTH"@, self.by_month.ser()); assert(s@ == acc); was = s@; }
    //@ before let ical = self.wkst.ical()
        proof { lemma_part(was, "BYSETPOS"@, self.by_setpos.ser(), s@); acc = acc + part("BYSETPOS"@, self.by_setpos.ser()); assert(s@ == acc); was = s@; }
    //@ before s.pop()
        proof { lemma_part(was, "WKST"@, self.wkst.ser(), s@); acc = acc + part("WKST"@, self.wkst.ser()); assert(s@ == acc); assert(acc == parts(*self)); lemma_parts_some(*self); was = s@; }
    //@ end
    //@ endimpl
    //@ props
}
