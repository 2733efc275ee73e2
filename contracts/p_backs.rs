// generated by tools/gencomp.py
// What was written under a property, read as that property.
pub mod backs {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    use crate::ser::*;
    use crate::grammar::*;
    use crate::written::*;
    use crate::again::*;
    use crate::prop::*;
    use crate::trip::*;
    use crate::properties::*;
    use crate::parser::datatype::*;
    use crate::ContentLine;
    use crate::xstd::num::int_text;
    broadcast use crate::xstd::ax_str_ext;
    //@ props C11
    proof fn lemma_prop_name(n: Seq<char>)
        requires n.len() > 0, n.len() != 3, n.len() != 5 || n[0] != 'B', forall|k: int| 0 <= k < n.len() ==> cls(Cls::Name, #[trigger] n[k])
        ensures prop_name(n)
    { assert(begin().drop_last().len() == 5 && begin().drop_last()[0] == 'B'); assert(end().drop_last().len() == 3); }
    impl Back<crate::Text> for P_action {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("ACTION"); let n = "ACTION"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'A' && n[1] == 'C' && n[2] == 'T' && n[3] == 'I' && n[4] == 'O' && n[5] == 'N'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::Text> for P_attach {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("ATTACH"); let n = "ATTACH"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'A' && n[1] == 'T' && n[2] == 'T' && n[3] == 'A' && n[4] == 'C' && n[5] == 'H'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::Uri> for P_attendee {
        open spec fn can(x: crate::Uri) -> bool { true }
        proof fn named() { reveal_strlit("ATTENDEE"); let n = "ATTENDEE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'A' && n[1] == 'T' && n[2] == 'T' && n[3] == 'E' && n[4] == 'N' && n[5] == 'D' && n[6] == 'E' && n[7] == 'E'); } lemma_prop_name(n); }
        proof fn back(x: crate::Uri, cl: ContentLine) { assert forall|v: crate::Uri| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_uri_back(x, cl, v); } }
    }
    impl Back<crate::Text> for P_calscale {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("CALSCALE"); let n = "CALSCALE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'C' && n[1] == 'A' && n[2] == 'L' && n[3] == 'S' && n[4] == 'C' && n[5] == 'A' && n[6] == 'L' && n[7] == 'E'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl BackList<crate::Text> for P_categories {
        proof fn list_named() { reveal_strlit("CATEGORIES"); let n = "CATEGORIES"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'C' && n[1] == 'A' && n[2] == 'T' && n[3] == 'E' && n[4] == 'G' && n[5] == 'O' && n[6] == 'R' && n[7] == 'I' && n[8] == 'E' && n[9] == 'S'); } lemma_prop_name(n); }
        proof fn back_one(x: crate::Text, cl: ContentLine) { assert(all_fit(seq![x])); lemma_one(x); lemma_texts(seq![x], cl, x.params@); }
        proof fn back_list(xs: Seq<crate::Text>, cl: ContentLine) { lemma_no_params(xs); lemma_texts(xs, cl, Seq::empty()); }
    }
    impl Back<crate::Class> for P_class {
        open spec fn can(x: crate::Class) -> bool { true }
        proof fn named() { reveal_strlit("CLASS"); let n = "CLASS"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'C' && n[1] == 'L' && n[2] == 'A' && n[3] == 'S' && n[4] == 'S'); } lemma_prop_name(n); }
        proof fn back(x: crate::Class, cl: ContentLine) { lemma_class(x); }
    }
    impl Back<crate::Text> for P_comment {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("COMMENT"); let n = "COMMENT"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'C' && n[1] == 'O' && n[2] == 'M' && n[3] == 'M' && n[4] == 'E' && n[5] == 'N' && n[6] == 'T'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::DateTime> for P_completed {
        open spec fn can(x: crate::DateTime) -> bool { true }
        proof fn named() { reveal_strlit("COMPLETED"); let n = "COMPLETED"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'C' && n[1] == 'O' && n[2] == 'M' && n[3] == 'P' && n[4] == 'L' && n[5] == 'E' && n[6] == 'T' && n[7] == 'E' && n[8] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::DateTime, cl: ContentLine) { lemma_dt(x); }
    }
    impl Back<crate::Text> for P_contact {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("CONTACT"); let n = "CONTACT"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'C' && n[1] == 'O' && n[2] == 'N' && n[3] == 'T' && n[4] == 'A' && n[5] == 'C' && n[6] == 'T'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::DateTime> for P_created {
        open spec fn can(x: crate::DateTime) -> bool { true }
        proof fn named() { reveal_strlit("CREATED"); let n = "CREATED"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'C' && n[1] == 'R' && n[2] == 'E' && n[3] == 'A' && n[4] == 'T' && n[5] == 'E' && n[6] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::DateTime, cl: ContentLine) { lemma_dt(x); }
    }
    impl Back<crate::Text> for P_description {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("DESCRIPTION"); let n = "DESCRIPTION"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'D' && n[1] == 'E' && n[2] == 'S' && n[3] == 'C' && n[4] == 'R' && n[5] == 'I' && n[6] == 'P' && n[7] == 'T' && n[8] == 'I' && n[9] == 'O' && n[10] == 'N'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::Date> for P_dtend {
        open spec fn can(x: crate::Date) -> bool { true }
        proof fn named() { reveal_strlit("DTEND"); let n = "DTEND"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'D' && n[1] == 'T' && n[2] == 'E' && n[3] == 'N' && n[4] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::Date, cl: ContentLine) { lemma_dodt(x); }
    }
    impl Back<crate::DateTime> for P_dtstamp {
        open spec fn can(x: crate::DateTime) -> bool { true }
        proof fn named() { reveal_strlit("DTSTAMP"); let n = "DTSTAMP"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'D' && n[1] == 'T' && n[2] == 'S' && n[3] == 'T' && n[4] == 'A' && n[5] == 'M' && n[6] == 'P'); } lemma_prop_name(n); }
        proof fn back(x: crate::DateTime, cl: ContentLine) { lemma_dt(x); }
    }
    impl Back<crate::Date> for P_dtstart {
        open spec fn can(x: crate::Date) -> bool { true }
        proof fn named() { reveal_strlit("DTSTART"); let n = "DTSTART"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'D' && n[1] == 'T' && n[2] == 'S' && n[3] == 'T' && n[4] == 'A' && n[5] == 'R' && n[6] == 'T'); } lemma_prop_name(n); }
        proof fn back(x: crate::Date, cl: ContentLine) { lemma_dodt(x); }
    }
    impl Back<crate::Date> for P_due {
        open spec fn can(x: crate::Date) -> bool { true }
        proof fn named() { reveal_strlit("DUE"); let n = "DUE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'D' && n[1] == 'U' && n[2] == 'E'); } assert(n != end().drop_last()) by { assert(n[0] != end().drop_last()[0]); } assert(n != begin().drop_last()) by { assert(n.len() != 5); } }
        proof fn back(x: crate::Date, cl: ContentLine) { lemma_dodt(x); }
    }
    impl Back<crate::chrono::TimeDelta> for P_duration {
        open spec fn can(x: crate::chrono::TimeDelta) -> bool { true }
        proof fn named() { reveal_strlit("DURATION"); let n = "DURATION"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'D' && n[1] == 'U' && n[2] == 'R' && n[3] == 'A' && n[4] == 'T' && n[5] == 'I' && n[6] == 'O' && n[7] == 'N'); } lemma_prop_name(n); }
        proof fn back(x: crate::chrono::TimeDelta, cl: ContentLine) { broadcast use crate::chrono::ax_span; lemma_span(x); assert forall|v: crate::chrono::TimeDelta| #[trigger] Self::ok(cl, v) implies x.same(&v) by { assert(v.ns() == x.ns()); assert(crate::chrono::span_of(v.ns()) == v); } }
    }
    impl BackList<crate::Date> for P_exdate {
        proof fn list_named() { reveal_strlit("EXDATE"); let n = "EXDATE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'E' && n[1] == 'X' && n[2] == 'D' && n[3] == 'A' && n[4] == 'T' && n[5] == 'E'); } lemma_prop_name(n); }
        proof fn back_one(x: crate::Date, cl: ContentLine) { assert(all_fit(seq![x])); assert(disps(seq![x]) =~= seq![x.disp()]); lemma_dates(seq![x], cl.value@); }
        proof fn back_list(xs: Seq<crate::Date>, cl: ContentLine) { lemma_list_text(xs); assert(sers(xs) =~= disps(xs)); lemma_dates(xs, cl.value@); }
    }
    impl BackList<crate::Period> for P_freebusy {
        proof fn list_named() { reveal_strlit("FREEBUSY"); let n = "FREEBUSY"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'F' && n[1] == 'R' && n[2] == 'E' && n[3] == 'E' && n[4] == 'B' && n[5] == 'U' && n[6] == 'S' && n[7] == 'Y'); } lemma_prop_name(n); }
        proof fn back_one(x: crate::Period, cl: ContentLine) { assert(all_fit(seq![x])); assert(disps(seq![x]) =~= seq![x.disp()]); lemma_periods(seq![x], cl.value@); }
        proof fn back_list(xs: Seq<crate::Period>, cl: ContentLine) { lemma_list_text(xs); assert(sers(xs) =~= disps(xs)); lemma_periods(xs, cl.value@); }
    }
    impl Back<crate::Geo> for P_geo {
        open spec fn can(x: crate::Geo) -> bool { true }
        proof fn named() { reveal_strlit("GEO"); let n = "GEO"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'G' && n[1] == 'E' && n[2] == 'O'); } assert(n != end().drop_last()) by { assert(n[0] != end().drop_last()[0]); } assert(n != begin().drop_last()) by { assert(n.len() != 5); } }
        proof fn back(x: crate::Geo, cl: ContentLine) {  }
    }
    impl Back<crate::DateTime> for P_last_modified {
        open spec fn can(x: crate::DateTime) -> bool { true }
        proof fn named() { reveal_strlit("LAST-MODIFIED"); let n = "LAST-MODIFIED"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'L' && n[1] == 'A' && n[2] == 'S' && n[3] == 'T' && n[4] == '-' && n[5] == 'M' && n[6] == 'O' && n[7] == 'D' && n[8] == 'I' && n[9] == 'F' && n[10] == 'I' && n[11] == 'E' && n[12] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::DateTime, cl: ContentLine) { lemma_dt(x); }
    }
    impl Back<crate::Text> for P_location {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("LOCATION"); let n = "LOCATION"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'L' && n[1] == 'O' && n[2] == 'C' && n[3] == 'A' && n[4] == 'T' && n[5] == 'I' && n[6] == 'O' && n[7] == 'N'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::Text> for P_method {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("METHOD"); let n = "METHOD"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'M' && n[1] == 'E' && n[2] == 'T' && n[3] == 'H' && n[4] == 'O' && n[5] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::Uri> for P_organizer {
        open spec fn can(x: crate::Uri) -> bool { true }
        proof fn named() { reveal_strlit("ORGANIZER"); let n = "ORGANIZER"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'O' && n[1] == 'R' && n[2] == 'G' && n[3] == 'A' && n[4] == 'N' && n[5] == 'I' && n[6] == 'Z' && n[7] == 'E' && n[8] == 'R'); } lemma_prop_name(n); }
        proof fn back(x: crate::Uri, cl: ContentLine) { assert forall|v: crate::Uri| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_uri_back(x, cl, v); } }
    }
    impl Back<u8> for P_percent_complete {
        open spec fn can(x: u8) -> bool { true }
        proof fn named() { reveal_strlit("PERCENT-COMPLETE"); let n = "PERCENT-COMPLETE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'P' && n[1] == 'E' && n[2] == 'R' && n[3] == 'C' && n[4] == 'E' && n[5] == 'N' && n[6] == 'T' && n[7] == '-' && n[8] == 'C' && n[9] == 'O' && n[10] == 'M' && n[11] == 'P' && n[12] == 'L' && n[13] == 'E' && n[14] == 'T' && n[15] == 'E'); } lemma_prop_name(n); }
        proof fn back(x: u8, cl: ContentLine) { broadcast use crate::xstd::num::lemma_int_text; lemma_num_back(x as int, 0); assert forall|v: u8| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_num_back(x as int, v as int); } }
    }
    impl Back<u8> for P_priority {
        open spec fn can(x: u8) -> bool { x <= 9 }
        proof fn named() { reveal_strlit("PRIORITY"); let n = "PRIORITY"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'P' && n[1] == 'R' && n[2] == 'I' && n[3] == 'O' && n[4] == 'R' && n[5] == 'I' && n[6] == 'T' && n[7] == 'Y'); } lemma_prop_name(n); }
        proof fn back(x: u8, cl: ContentLine) { broadcast use crate::xstd::num::lemma_int_text; lemma_num_back(x as int, 0); assert forall|v: u8| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_num_back(x as int, v as int); } }
    }
    impl Back<crate::Text> for P_prodid {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("PRODID"); let n = "PRODID"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'P' && n[1] == 'R' && n[2] == 'O' && n[3] == 'D' && n[4] == 'I' && n[5] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::RDate> for P_rdate {
        open spec fn can(x: crate::RDate) -> bool { true }
        proof fn named() { reveal_strlit("RDATE"); let n = "RDATE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'R' && n[1] == 'D' && n[2] == 'A' && n[3] == 'T' && n[4] == 'E'); } lemma_prop_name(n); }
        proof fn back(x: crate::RDate, cl: ContentLine) { lemma_rdate(x, cl); }
    }
    impl Back<crate::Date> for P_recurid {
        open spec fn can(x: crate::Date) -> bool { true }
        proof fn named() { reveal_strlit("RECURID"); let n = "RECURID"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'R' && n[1] == 'E' && n[2] == 'C' && n[3] == 'U' && n[4] == 'R' && n[5] == 'I' && n[6] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::Date, cl: ContentLine) { lemma_dodt(x); }
    }
    impl Back<crate::Text> for P_related_to {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("RELATED-TO"); let n = "RELATED-TO"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'R' && n[1] == 'E' && n[2] == 'L' && n[3] == 'A' && n[4] == 'T' && n[5] == 'E' && n[6] == 'D' && n[7] == '-' && n[8] == 'T' && n[9] == 'O'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<u32> for P_repeat {
        open spec fn can(x: u32) -> bool { true }
        proof fn named() { reveal_strlit("REPEAT"); let n = "REPEAT"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'R' && n[1] == 'E' && n[2] == 'P' && n[3] == 'E' && n[4] == 'A' && n[5] == 'T'); } lemma_prop_name(n); }
        proof fn back(x: u32, cl: ContentLine) { broadcast use crate::xstd::num::lemma_int_text; lemma_num_back(x as int, 0); assert forall|v: u32| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_num_back(x as int, v as int); } }
    }
    impl BackList<crate::Text> for P_resources {
        proof fn list_named() { reveal_strlit("RESOURCES"); let n = "RESOURCES"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'R' && n[1] == 'E' && n[2] == 'S' && n[3] == 'O' && n[4] == 'U' && n[5] == 'R' && n[6] == 'C' && n[7] == 'E' && n[8] == 'S'); } lemma_prop_name(n); }
        proof fn back_one(x: crate::Text, cl: ContentLine) { assert(all_fit(seq![x])); lemma_one(x); lemma_texts(seq![x], cl, x.params@); }
        proof fn back_list(xs: Seq<crate::Text>, cl: ContentLine) { lemma_no_params(xs); lemma_texts(xs, cl, Seq::empty()); }
    }
    impl Back<crate::Recur> for P_rrule {
        open spec fn can(x: crate::Recur) -> bool { true }
        proof fn named() { reveal_strlit("RRULE"); let n = "RRULE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'R' && n[1] == 'R' && n[2] == 'U' && n[3] == 'L' && n[4] == 'E'); } lemma_prop_name(n); }
        proof fn back(x: crate::Recur, cl: ContentLine) { lemma_rule(x); }
    }
    impl Back<crate::RequestStatus> for P_rstatus {
        open spec fn can(x: crate::RequestStatus) -> bool { true }
        proof fn named() { reveal_strlit("RSTATUS"); let n = "RSTATUS"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'R' && n[1] == 'S' && n[2] == 'T' && n[3] == 'A' && n[4] == 'T' && n[5] == 'U' && n[6] == 'S'); } lemma_prop_name(n); }
        proof fn back(x: crate::RequestStatus, cl: ContentLine) { lemma_rstatus(x); }
    }
    impl Back<u32> for P_sequence {
        open spec fn can(x: u32) -> bool { true }
        proof fn named() { reveal_strlit("SEQUENCE"); let n = "SEQUENCE"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'S' && n[1] == 'E' && n[2] == 'Q' && n[3] == 'U' && n[4] == 'E' && n[5] == 'N' && n[6] == 'C' && n[7] == 'E'); } lemma_prop_name(n); }
        proof fn back(x: u32, cl: ContentLine) { broadcast use crate::xstd::num::lemma_int_text; lemma_num_back(x as int, 0); assert forall|v: u32| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_num_back(x as int, v as int); } }
    }
    impl Back<crate::Status> for P_status {
        open spec fn can(x: crate::Status) -> bool { true }
        proof fn named() { reveal_strlit("STATUS"); let n = "STATUS"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'S' && n[1] == 'T' && n[2] == 'A' && n[3] == 'T' && n[4] == 'U' && n[5] == 'S'); } lemma_prop_name(n); }
        proof fn back(x: crate::Status, cl: ContentLine) { lemma_status(x); }
    }
    impl Back<crate::Text> for P_summary {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("SUMMARY"); let n = "SUMMARY"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'S' && n[1] == 'U' && n[2] == 'M' && n[3] == 'M' && n[4] == 'A' && n[5] == 'R' && n[6] == 'Y'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::TimeTransparency> for P_transp {
        open spec fn can(x: crate::TimeTransparency) -> bool { true }
        proof fn named() { reveal_strlit("TRANSP"); let n = "TRANSP"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'T' && n[1] == 'R' && n[2] == 'A' && n[3] == 'N' && n[4] == 'S' && n[5] == 'P'); } lemma_prop_name(n); }
        proof fn back(x: crate::TimeTransparency, cl: ContentLine) { lemma_timetransparency(x); }
    }
    impl Back<crate::Trigger> for P_trigger {
        open spec fn can(x: crate::Trigger) -> bool { true }
        proof fn named() { reveal_strlit("TRIGGER"); let n = "TRIGGER"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'T' && n[1] == 'R' && n[2] == 'I' && n[3] == 'G' && n[4] == 'G' && n[5] == 'E' && n[6] == 'R'); } lemma_prop_name(n); }
        proof fn back(x: crate::Trigger, cl: ContentLine) { lemma_trigger(x); }
    }
    impl Back<crate::Text> for P_tzid {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("TZID"); let n = "TZID"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'T' && n[1] == 'Z' && n[2] == 'I' && n[3] == 'D'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::Text> for P_tzname {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("TZNAME"); let n = "TZNAME"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'T' && n[1] == 'Z' && n[2] == 'N' && n[3] == 'A' && n[4] == 'M' && n[5] == 'E'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::chrono::FixedOffset> for P_tzoffsetfrom {
        open spec fn can(x: crate::chrono::FixedOffset) -> bool { true }
        proof fn named() { reveal_strlit("TZOFFSETFROM"); let n = "TZOFFSETFROM"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'T' && n[1] == 'Z' && n[2] == 'O' && n[3] == 'F' && n[4] == 'F' && n[5] == 'S' && n[6] == 'E' && n[7] == 'T' && n[8] == 'F' && n[9] == 'R' && n[10] == 'O' && n[11] == 'M'); } lemma_prop_name(n); }
        proof fn back(x: crate::chrono::FixedOffset, cl: ContentLine) { lemma_offset(x); }
    }
    impl Back<crate::chrono::FixedOffset> for P_tzoffsetto {
        open spec fn can(x: crate::chrono::FixedOffset) -> bool { true }
        proof fn named() { reveal_strlit("TZOFFSETTO"); let n = "TZOFFSETTO"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'T' && n[1] == 'Z' && n[2] == 'O' && n[3] == 'F' && n[4] == 'F' && n[5] == 'S' && n[6] == 'E' && n[7] == 'T' && n[8] == 'T' && n[9] == 'O'); } lemma_prop_name(n); }
        proof fn back(x: crate::chrono::FixedOffset, cl: ContentLine) { lemma_offset(x); }
    }
    impl Back<crate::Uri> for P_tzurl {
        open spec fn can(x: crate::Uri) -> bool { true }
        proof fn named() { reveal_strlit("TZURL"); let n = "TZURL"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'T' && n[1] == 'Z' && n[2] == 'U' && n[3] == 'R' && n[4] == 'L'); } lemma_prop_name(n); }
        proof fn back(x: crate::Uri, cl: ContentLine) { assert forall|v: crate::Uri| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_uri_back(x, cl, v); } }
    }
    impl Back<crate::Text> for P_uid {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("UID"); let n = "UID"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'U' && n[1] == 'I' && n[2] == 'D'); } assert(n != end().drop_last()) by { assert(n[0] != end().drop_last()[0]); } assert(n != begin().drop_last()) by { assert(n.len() != 5); } }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    impl Back<crate::Uri> for P_url {
        open spec fn can(x: crate::Uri) -> bool { true }
        proof fn named() { reveal_strlit("URL"); let n = "URL"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'U' && n[1] == 'R' && n[2] == 'L'); } assert(n != end().drop_last()) by { assert(n[0] != end().drop_last()[0]); } assert(n != begin().drop_last()) by { assert(n.len() != 5); } }
        proof fn back(x: crate::Uri, cl: ContentLine) { assert forall|v: crate::Uri| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_uri_back(x, cl, v); } }
    }
    impl Back<crate::Text> for P_version {
        open spec fn can(x: crate::Text) -> bool { true }
        proof fn named() { reveal_strlit("VERSION"); let n = "VERSION"@; assert forall|k: int| 0 <= k < n.len() implies cls(Cls::Name, #[trigger] n[k]) by { assert(n[0] == 'V' && n[1] == 'E' && n[2] == 'R' && n[3] == 'S' && n[4] == 'I' && n[5] == 'O' && n[6] == 'N'); } lemma_prop_name(n); }
        proof fn back(x: crate::Text, cl: ContentLine) { assert forall|v: crate::Text| #[trigger] Self::ok(cl, v) implies x.same(&v) by { lemma_text_back(x, cl, v); } }
    }
    //@ props
}
