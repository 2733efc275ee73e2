def ser(mod, hdr, ty, ser, attr="None", exact="true", body="keep", attrbody="keep", extra=""):
    return f"""    //@ impl {mod} | {hdr}
    //@ inherit crate::ser::Serialize
    open spec fn comp() -> Option<Seq<char>> {{ None }}
    open spec fn attr_spec(&self) -> Option<Seq<char>> {{ {attr} }}
    open spec fn exact() -> bool {{ {exact} }}
    open spec fn ser(&self) -> Seq<char> {{ {ser} }}
    open spec fn lines(&self) -> Seq<Seq<char>> {{ Seq::empty() }}
    //@ method component
    //@ keep
    //@ end
    //@ method attr
    //@ {attrbody}
    //@ end
    //@ method ical
    //@ {body}
    //@ end
    //@ endimpl
"""
o="""// The values of properties, as text.
pub mod leaf {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    use crate::xstd::fmt::Display;
    use crate::ser::{Serialize, esc, params_text, list_text};
    use crate::properties::*;
    use crate::properties::period::{StartEnd, StartDur};
    use crate::ContentLine;
    use crate::chrono;
    broadcast use {crate::xstd::ax_str_ext, crate::chrono::group_chrono};
    /// parameters, when there are any
    pub open spec fn some_params(p: BTreeMap<String, String>) -> Option<Seq<char>> { if p@.len() == 0 { None } else { Some(params_text(p@)) } }
    //@ rename iter vx_iter
    //@ rename join vx_join
    //@ props C09,C10
"""
for mod,ty,f in [('crate::properties::text','Text','text'),('crate::properties::uri','Uri','uri'),('crate::content_line','ContentLine','value')]:
    o+=f"""    //@ impl {mod} | Display for {ty}
    open spec fn disp(&self) -> Seq<char> {{ self.{f}@ }}
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
"""
    o+=ser(mod,f'Serialize for {ty}',ty,f'esc(self.{f}@)','some_params(self.params)')
o+=ser('crate::properties::class','Serialize for Class','Class','esc(self.disp())')
o+="    //@ props C10\n"
o+=ser('crate::properties::status','Serialize for Status','Status','self.disp()')
o+=ser('crate::properties::time_transparency','Serialize for TimeTransparency','T','self.disp()')
o+=ser('crate::ser','Serialize for chrono::TimeDelta','T','self.disp()')
o+="""    impl Display for Geo {
        uninterp spec fn disp(&self) -> Seq<char>;
        #[verifier::external_body]
        fn fmt(&self, f: &mut crate::xstd::fmt::Formatter<'_>) -> (r: crate::xstd::fmt::Result) { unimplemented!() }
    }
"""
o+=ser('crate::properties::geo','Serialize for Geo','T','self.disp()')
o+="""    /// the status code with one decimal
    pub uninterp spec fn code_text(x: f32) -> Seq<char>;
"""
o+=ser('crate::properties::request_status','Serialize for RequestStatus','T',"code_text(self.statcode) + seq![';'] + esc(self.statdesc@) + (match self.extdata { Some(e) => seq![';'] + esc(e@), None => Seq::empty() })", body='nobody')
for n,b in [('StartEnd','self.start.disp() + seq![\'/\'] + self.end.disp()'),('StartDur','self.start.disp() + seq![\'/\'] + self.duration.disp()'),('Period','match self { Period::StartEnd(x) => x.disp(), Period::StartDur(x) => x.disp() }')]:
    o+=f"""    //@ impl crate::properties::period | Display for {n}
    open spec fn disp(&self) -> Seq<char> {{ {b} }}
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
"""
    o+=ser('crate::properties::period',f'Serialize for {n}','T','self.disp()')
o+="""    pub open spec fn items<T: Display>(v: Seq<T>) -> Seq<char> decreases v.len() {
        if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0].disp() } else { items(v.drop_last()) + seq![','] + v.last().disp() }
    }
    proof fn lemma_items<T: Display>(v: Seq<T>, ts: Seq<String>)
        requires v.len() == ts.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] ts[k])@ == v[k].disp()
        ensures crate::xstd::strings_joined(ts, seq![',']) == items(v)
        decreases v.len()
    {
        if v.len() > 1 {
            assert forall|k: int| 0 <= k < v.drop_last().len() implies (#[trigger] ts.drop_last()[k])@ == v.drop_last()[k].disp() by { assert(ts.drop_last()[k] == ts[k]); }
            lemma_items(v.drop_last(), ts.drop_last());
        } else if v.len() == 1 { assert(ts[0]@ == v[0].disp()); }
    }
    proof fn lemma_all_items<T: Display>(v: Seq<T>)
        ensures forall|ts: Seq<String>| v.len() == ts.len() && (forall|k: int| 0 <= k < v.len() ==> (#[trigger] ts[k])@ == v[k].disp()) ==> #[trigger] crate::xstd::strings_joined(ts, seq![',']) == items(v)
    {
        assert forall|ts: Seq<String>| v.len() == ts.len() && (forall|k: int| 0 <= k < v.len() ==> (#[trigger] ts[k])@ == v[k].disp()) implies #[trigger] crate::xstd::strings_joined(ts, seq![',']) == items(v) by { lemma_items(v, ts); }
    }
    //@ impl crate::properties::rdate | Display for RDate
    open spec fn disp(&self) -> Seq<char> { match self { RDate::Date(v) => items(v@), RDate::Period(v) => items(v@) } }
    //@ method fmt
    //@ head
        proof { assert(","@ =~= seq![',']); match self { RDate::Date(v) => lemma_all_items(v@), RDate::Period(v) => lemma_all_items(v@) } }
    //@ end
    //@ endimpl
"""
o+=ser('crate::properties::rdate','Serialize for RDate','T','self.disp()',"""match self {
            RDate::Date(v) => if exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]) is DateTime { None } else { Some("VALUE=DATE"@) },
            RDate::Period(_) => Some("VALUE=PERIOD"@),
        }""",attrbody='keep')
o+=ser('crate::properties::trigger','Serialize for Trigger','T','match self { Trigger::DateTime(d) => d.ser(), Trigger::Duration(d) => d.ser() }','Some(match self { Trigger::DateTime(_) => "VALUE=DATE-TIME"@, Trigger::Duration(_) => "VALUE=DURATION"@ })')
o+="    //@ props C17\n"
o+=ser('crate::properties::recur','Serialize for Freq','T','self.disp()')
o+=ser('crate::properties::recur','Serialize for Weekday','T','self.disp()')
o+="""    //@ impl crate::properties::recur | Display for WeekdayNum
    open spec fn disp(&self) -> Seq<char> { (match self.ord { Some(n) => crate::xstd::fmt::num_text(n as int), None => Seq::empty() }) + self.weekday.disp() }
    //@ method fmt
    //@ keep
    //@ end
    //@ endimpl
"""
o+=ser('crate::properties::recur','Serialize for WeekdayNum','T','self.disp()')
o+="""}
// The text of a recurrence rule.
pub mod rule_text {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::ser::{Serialize, list_text};
    use crate::properties::*;
    //@ props C17
    pub open spec fn part(name: Seq<char>, text: Seq<char>) -> Seq<char> { if text.len() == 0 { Seq::empty() } else { name + seq!['='] + text + seq![';'] } }
    /// the parts of a rule, each under its name and ended by a semicolon
    pub open spec fn parts(r: Recur) -> Seq<char> {
        part("FREQ"@, r.freq.ser()) + part("UNTIL"@, r.until.ser()) + part("COUNT"@, r.count.ser()) + part("INTERVAL"@, r.interval.ser())
            + part("BYSECOND"@, r.by_second.ser()) + part("BYMINUTE"@, r.by_minute.ser()) + part("BYHOUR"@, r.by_hour.ser()) + part("BYDAY"@, r.by_day.ser())
            + part("BYMONTHDAY"@, r.by_monthday.ser()) + part("BYYEARDAY"@, r.by_yearday.ser()) + part("BYWEEKNO"@, r.by_weekno.ser()) + part("BYMONTH"@, r.by_month.ser())
            + part("BYSETPOS"@, r.by_setpos.ser()) + part("WKST"@, r.wkst.ser())
    }
"""
ps=[('FREQ','freq'),('UNTIL','until'),('COUNT','count'),('INTERVAL','interval'),('BYSECOND','by_second'),('BYMINUTE','by_minute'),('BYHOUR','by_hour'),('BYDAY','by_day'),('BYMONTHDAY','by_monthday'),('BYYEARDAY','by_yearday'),('BYWEEKNO','by_weekno'),('BYMONTH','by_month'),('BYSETPOS','by_setpos'),('WKST','wkst')]
b="attr #[verifier::rlimit(100)]\n    //@ noreveal\n    //@ head\n        hide(list_text); hide(crate::xstd::fmt::num_text); hide(part); hide(crate::properties::recur::freq_token);\n        let ghost mut acc = Seq::<char>::empty(); let ghost mut was = Seq::<char>::empty();\n"
prev=None
for n,f in ps+[(None,None)]:
    at = f"let ical = self.{f}.ical()" if f else "s.pop()"
    pr = f"lemma_part(was, \"{prev[0]}\"@, self.{prev[1]}.ser(), s@); acc = {'acc + ' if prev[0]!='FREQ' else ''}part(\"{prev[0]}\"@, self.{prev[1]}.ser()); assert(s@ == acc);" if prev else "assert(s@ =~= acc);"
    if not f: pr += " assert(acc == parts(*self)); lemma_parts_some(*self);"
    b+=f"    //@ before {at}\n        proof {{ {pr} was = s@; }}\n"
    prev=(n,f)
b=b.rstrip("\n")
o+="""    /// a rule has at least its frequency
    proof fn lemma_parts_some(r: Recur)
        ensures parts(r).len() > 0
    {
        reveal_strlit("SECONDLY"); reveal_strlit("MINUTELY"); reveal_strlit("HOURLY"); reveal_strlit("DAILY");
        reveal_strlit("WEEKLY"); reveal_strlit("MONTHLY"); reveal_strlit("YEARLY");
        assert(r.freq.ser().len() > 0);
        assert(part("FREQ"@, r.freq.ser()).len() > 0);
    }
    /// one part more
    proof fn lemma_part(was: Seq<char>, name: Seq<char>, text: Seq<char>, now: Seq<char>)
        requires text.len() == 0 ==> now == was, text.len() > 0 ==> now == was + ((((Seq::<char>::empty() + name) + "="@) + text) + ";"@)
        ensures now == was + part(name, text), was.len() == 0 ==> now == part(name, text)
    {
        reveal_strlit("="); reveal_strlit(";");
        assert("="@ =~= seq!['=']); assert(";"@ =~= seq![';']);
        if text.len() > 0 { assert((((Seq::<char>::empty() + name) + "="@) + text) + ";"@ =~= part(name, text)); } else { assert(now =~= was + part(name, text)); }
        if was.len() == 0 { assert(was + part(name, text) =~= part(name, text)); }
    }
"""
o+=ser('crate::properties::recur','Serialize for Recur','T','parts(*self).drop_last()',body=b)
o+="""    //@ props
}
"""
open('/verif/contracts/p_leaf.rs','w').write(o)
