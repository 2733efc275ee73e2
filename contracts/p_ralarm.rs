// An alarm is read as the kind its first ACTION names.
pub mod r_valarm {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::ContentLine;
    use crate::components::*;
    use crate::components::valarm::{Audio, Display, Email, VAlarm};
    broadcast use crate::xstd::ax_str_ext;
    //@ rename iter vx_iter
    /// the i-th line is the first ACTION
    pub open spec fn first_action(ls: Seq<ContentLine>, i: int) -> bool {
        &&& 0 <= i < ls.len() && ls[i].key@ == "ACTION"@
        &&& forall|j: int| 0 <= j < i ==> (#[trigger] ls[j]).key@ != "ACTION"@
    }
    pub open spec fn no_action(ls: Seq<ContentLine>) -> bool { forall|j: int| 0 <= j < ls.len() ==> (#[trigger] ls[j]).key@ != "ACTION"@ }
    impl VAlarm {
        pub open spec fn read(ls: Seq<ContentLine>, a: Seq<char>, v: VAlarm) -> bool {
            match v {
                VAlarm::Audio(x) => a == "AUDIO"@ && Audio::read(ls, ls.len(), x),
                VAlarm::Display(x) => a == "DISPLAY"@ && Display::read(ls, ls.len(), x),
                VAlarm::Email(x) => a == "EMAIL"@ && Email::read(ls, ls.len(), x),
            }
        }
        pub open spec fn unreadable(ls: Seq<ContentLine>, a: Seq<char>) -> bool {
            ||| a == "AUDIO"@ && Audio::unreadable(ls)
            ||| a == "DISPLAY"@ && Display::unreadable(ls)
            ||| a == "EMAIL"@ && Email::unreadable(ls)
            ||| a != "AUDIO"@ && a != "DISPLAY"@ && a != "EMAIL"@
        }
    }
    //@ props
    impl TryFromSpecImpl<Vec<ContentLine>> for VAlarm {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: Vec<ContentLine>) -> core::result::Result<VAlarm, crate::Error> { arbitrary() }
    }
    //@ props C18,C11
    //@ impl crate::components::valarm | TryFrom<Vec<crate::ContentLine>> for VAlarm
    //@ method try_from
    //@ ret r
        ensures match r {
            Ok(v) => exists|i: int| #![trigger properties@[i]] first_action(properties@, i) && VAlarm::read(properties@, properties@[i].value@, v),
            Err(_) => no_action(properties@) || exists|i: int| #![trigger properties@[i]] first_action(properties@, i) && VAlarm::unreadable(properties@, properties@[i].value@),
        }
    //@ closure 0 |x: &&ContentLine| -> (q: bool)
            ensures q == (x.key@ == "ACTION"@)
    //@ closure 1 || -> (q: crate::Error)
    //@ end
    //@ endimpl
    // the three kinds are told apart
    proof fn lemma_kinds() ensures "AUDIO"@ != "DISPLAY"@, "AUDIO"@ != "EMAIL"@, "DISPLAY"@ != "EMAIL"@
    { reveal_strlit("AUDIO"); reveal_strlit("DISPLAY"); reveal_strlit("EMAIL"); }
    //@ norename iter
    //@ props
}
