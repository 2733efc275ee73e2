    //@ fn crate::parser::weekday
    //@ ret r
        ensures match r {
            Ok((rest, o)) => input@ == day_token(o) + rest@,
            Err(e) => e is Error && forall|d: crate::Weekday| !(#[trigger] day_token(d)).is_prefix_of(input@),
        }
    //@ closure 0 |s: Vec<char>| -> (q: core::result::Result<crate::Weekday, crate::Error>)
        requires s@.len() == 2
        ensures match q {
            Ok(d) => s@ =~= day_token(d),
            Err(_) => forall|d: crate::Weekday| !(s@ =~= #[trigger] day_token(d)),
        }
    //@ end
    //@ fn crate::parser::weekdaynum
    //@ ret r
        ensures match r { Ok((rest, o)) => wday_at(input@, rest@, o), Err(e) => e is Error && no_wday(input@) }
    //@ closure 0 |p: (Option<i8>, crate::Weekday)| -> (q: crate::WeekdayNum)
        ensures q.ord == p.0, q.weekday == p.1
    //@ end
