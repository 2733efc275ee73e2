pub mod class {
    use vstd::prelude::*;
    use crate::xstd::prelude::*;
    broadcast use crate::xstd::ax_str_ext;
    //@ item crate::properties::class::Class
    pub open spec fn parsed(s: Seq<char>, v: Class) -> bool {
        match v {
            Class::Public => s == "PUBLIC"@,
            Class::Private => s == "PRIVATE"@,
            Class::Confidential => s == "CONFIDENTIAL"@,
            Class::Custom(c) => c@ == s && s != "PUBLIC"@ && s != "PRIVATE"@ && s != "CONFIDENTIAL"@,
        }
    }
    pub open spec fn class_token(v: Class) -> Seq<char> {
        match v {
            Class::Public => "PUBLIC"@,
            Class::Private => "PRIVATE"@,
            Class::Confidential => "CONFIDENTIAL"@,
            Class::Custom(c) => crate::xstd::uppercase(c@),
        }
    }
    //@ impl crate::properties::class | FromStr for Class
    open spec fn parse_ok(s: Seq<char>, v: Self) -> bool { parsed(s, v) }
    open spec fn parse_err(s: Seq<char>) -> bool { false }
    //@ method from_str
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
    //@ impl crate::properties::class | Display for Class
    open spec fn disp(&self) -> Seq<char> { class_token(*self) }
    //@ method fmt
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
}
