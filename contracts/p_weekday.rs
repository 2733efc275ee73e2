    //@ item crate::properties::recur::Weekday
    //@ item crate::properties::recur::WeekdayNum
    pub open spec fn day_token(x: Weekday) -> Seq<char> {
        match x {
            Weekday::Sunday => "SU"@,
            Weekday::Monday => "MO"@,
            Weekday::Tuesday => "TU"@,
            Weekday::Wenesday => "WE"@,
            Weekday::Thurday => "TH"@,
            Weekday::Friday => "FR"@,
            Weekday::Saturday => "SA"@,
        }
    }
    pub broadcast proof fn lemma_day_token(x: Weekday)
        ensures (#[trigger] day_token(x)).len() == 2,
            day_token(x) == (match x {
                Weekday::Sunday => seq!['S', 'U'],
                Weekday::Monday => seq!['M', 'O'],
                Weekday::Tuesday => seq!['T', 'U'],
                Weekday::Wenesday => seq!['W', 'E'],
                Weekday::Thurday => seq!['T', 'H'],
                Weekday::Friday => seq!['F', 'R'],
                Weekday::Saturday => seq!['S', 'A'],
            }),
    {
        reveal_strlit("SU"); reveal_strlit("MO"); reveal_strlit("TU"); reveal_strlit("WE"); reveal_strlit("TH"); reveal_strlit("FR"); reveal_strlit("SA");
        assert(day_token(x) =~= (match x {
                Weekday::Sunday => seq!['S', 'U'],
                Weekday::Monday => seq!['M', 'O'],
                Weekday::Tuesday => seq!['T', 'U'],
                Weekday::Wenesday => seq!['W', 'E'],
                Weekday::Thurday => seq!['T', 'H'],
                Weekday::Friday => seq!['F', 'R'],
                Weekday::Saturday => seq!['S', 'A'],
            }));
    }
    pub proof fn lemma_day_distinct(x: Weekday, y: Weekday) requires day_token(x) == day_token(y) ensures x == y {
        lemma_day_token(x); lemma_day_token(y);
        assert(day_token(x)[0] == day_token(y)[0]);
        assert(day_token(x)[1] == day_token(y)[1]);
    }
    //@ impl crate::properties::recur | Display for Weekday
    open spec fn disp(&self) -> Seq<char> { day_token(*self) }
    //@ method fmt
    //@ ret r
    //@ keep
    //@ end
    //@ endimpl
    /// [number] weekday, and what follows
    pub open spec fn wday_at(s: Seq<char>, rest: Seq<char>, v: WeekdayNum) -> bool {
        match v.ord {
            Some(n) => exists|m: Seq<char>| #[trigger] crate::xstd::num::int_prefix(s, m, n as int) && m == day_token(v.weekday) + rest,
            None => crate::xstd::num::no_int_prefix(s, -128, 127) && s == day_token(v.weekday) + rest,
        }
    }
    pub open spec fn no_day(s: Seq<char>) -> bool { forall|d: Weekday| !(#[trigger] day_token(d)).is_prefix_of(s) }
    pub open spec fn no_wday(s: Seq<char>) -> bool {
        (exists|m: Seq<char>, n: int| #[trigger] crate::xstd::num::int_prefix(s, m, n) && -128 <= n <= 127 && no_day(m)) || (crate::xstd::num::no_int_prefix(s, -128, 127) && no_day(s))
    }
