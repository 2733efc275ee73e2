// Conversions into text, URI and custom property values.
pub mod values {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::xstd::prelude::*;
    use crate::xstd::collections::BTreeMap;
    use crate::properties::{Text, Uri};
    use crate::ContentLine;
    //@ props C06,C11
    //@ impl crate::properties::text | Text | inherent
    //@ method from
    //@ ret r
        ensures r.text@ == text@, r.params@.len() == 0
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<&str> for Text {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: &str) -> Text { arbitrary() }
    }
    //@ props C06,C11,C18
    //@ impl crate::properties::text | From<&str> for Text
    //@ method from
    //@ ret r
        ensures r.text@ == value@, r.params@.len() == 0
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<String> for Text {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: String) -> Text { arbitrary() }
    }
    //@ props C06,C11
    //@ impl crate::properties::text | From<String> for Text
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<ContentLine> for Text {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: ContentLine) -> Text { Text { params: v.params, text: v.value } }
    }
    //@ props C06,C03,C11
    //@ impl crate::properties::text | From<crate::ContentLine> for Text
    //@ method from
    //@ keep
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<&str> for Uri {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: &str) -> Uri { arbitrary() }
    }
    //@ props C06,C11,C18
    //@ impl crate::properties::uri | From<&str> for Uri
    //@ method from
    //@ ret r
        ensures r.uri@ == value@, r.params@.len() == 0
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<String> for Uri {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: String) -> Uri { arbitrary() }
    }
    //@ props C06,C11
    //@ impl crate::properties::uri | From<String> for Uri
    //@ method from
    //@ ret r
        ensures r.uri == value, r.params@.len() == 0
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<ContentLine> for Uri {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: ContentLine) -> Uri { arbitrary() }
    }
    //@ props C06,C03,C11
    //@ impl crate::properties::uri | From<crate::ContentLine> for Uri
    //@ method from
    //@ ret r
        ensures r.uri == value.value, r.params == value.params
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<String> for ContentLine {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: String) -> ContentLine { arbitrary() }
    }
    //@ props C06,C11
    //@ impl crate::content_line | From<String> for ContentLine
    //@ method from
    //@ ret r
        ensures r.value == value, r.params@.len() == 0, r.key@.len() == 0
    //@ end
    //@ endimpl
    //@ props
    impl FromSpecImpl<&str> for ContentLine {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: &str) -> ContentLine { arbitrary() }
    }
    //@ props C06,C11
    //@ impl crate::content_line | From<&str> for ContentLine
    //@ method from
    //@ ret r
        ensures r.value@ == value@, r.params@.len() == 0, r.key@.len() == 0
    //@ end
    //@ endimpl
    //@ props
}
