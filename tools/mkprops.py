#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they can be edited in one place)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))

p('C01','Parsing any text returns a value or an error, never a panic',
 "Parsing any string as any calendar component (VCALENDAR, VEVENT, VTODO, VJOURNAL, VFREEBUSY, VTIMEZONE, VALARM and their sub-components) or as any property value (date, date-time, duration, period, recurrence rule, weekday, status, class, transparency, geo, request status, trigger) terminates and yields either a value or an error. No input, however malformed, truncated, oversized or non-ASCII, makes it panic, overflow an integer or a duration, index out of range or unwrap a missing part. The same holds for re-serialising whatever was parsed.",
 ['inputs'],'every string given to every public parsing entry point',
 'The tests parse a fixed directory of well-formed files; a panic hides behind any malformed value they do not contain (missing FREQ, period without a slash, huge digits, a multi-byte character at a fold).',
 ['src/parser/*.rs','src/properties/*.rs','src/components/*.rs','src/ser.rs','src/lib.rs','derive/src/component.rs'],
 [('nom combinators returning IResult','src/parser/mod.rs'),('checked duration arithmetic','src/parser/datatype.rs, src/lib.rs'),('errors for missing fields','derive/src/component.rs')],
 ['FromStr / TryFrom of every public type','ser::ical'])
p('C02','Content lines keep name, parameters and value exactly',
 "Reading a well-formed content line NAME;PARAM=value;PARAM=\"quoted value\":VALUE ended by LF or CRLF yields exactly that name, one entry per parameter with its text (quotes removed, so quoted text may contain colons, semicolons and commas; a repeated parameter keeps the last text) and every character of the value up to the line end. Lines are read in order, each exactly once, up to the first BEGIN:, END: or malformed line, and nothing past that point is consumed. A component reads the same whether or not its lines have been folded, at any character position, with CRLF followed by one space or tab.",
 ['inputs'],'every content line, parameter list, value and fold position',
 'Tests parse a few fixed lines; they cannot cover every placement of separators, quotes and folds.',
 ['src/parser/mod.rs','derive/src/component.rs'],
 [('content_line / param / quoted_param / value grammar','src/parser/mod.rs'),('unfolding by replacing CRLF+WSP','derive/src/component.rs, src/components/valarm.rs')],
 ['x_prop / iana_prop entries and text properties of a parsed component'])
p('C03','Every property line ends up in its own field',
 "When a component is read, each content line goes to the field named after it and to no other: optional and required single fields take the last line of that name, multi-valued fields collect all lines in order, comma-list fields (CATEGORIES, RESOURCES, EXDATE, FREEBUSY) collect all elements of all their lines in order. The last line of each other name is kept verbatim under that name, X- names separately from the rest, and a field no line mentions is empty. A missing required property (for instance DTSTAMP, UID, DTSTART of an event, TZID, PRODID, VERSION), an invalid value in the line that supplies one, or an invalid value in any line of another known property makes the whole component an error.",
 ['inputs'],'every list of content lines, for each of the eleven component types',
 'Tests compare a few sample files; swapping two fields, dropping a repeated line, or losing an unknown property shows only on lists the samples lack.',
 ['derive/src/component.rs','src/components/*.rs'],
 [('derived TryFrom<Vec<ContentLine>>','derive/src/component.rs')],
 ['public fields of the parsed component'])
p('C04','Component nesting is preserved',
 "A calendar that parses contains exactly the components written between its BEGIN and END, each in the collection of its kind and in source order within that collection; an event's alarms and a time zone's STANDARD and DAYLIGHT parts likewise belong to the component that encloses them. A component that is unterminated, closed by another kind's END, or invalid makes the enclosing parse an error: it is never silently dropped, and no component is invented or moved.",
 ['inputs'],'every sequence and nesting of components',
 'Tests hold a handful of calendars, none mixing all kinds in all orders or with broken members.',
 ['src/parser/components.rs'],
 [('delimited BEGIN/END parsers, many0, push loops','src/parser/components.rs')],
 ['VCalendar.events/todo/journals/freebusy/timezones/alarms, VEvent.alarms, VTimezone.standard/daylight'])
p('C05','Enumerated tokens parse and print as inverses',
 "STATUS, CLASS, FREQ, TRANSP and weekday tokens of RFC 5545 each parse to their own variant and that variant prints back the same token, so no two variants share a token. STATUS, FREQ, TRANSP and weekdays reject every other token with an error; CLASS keeps any other token as a custom class that prints in upper case.",
 ['inputs'],'every string as token, every variant',
 'Tests print two or three variants; parsing tables are otherwise only sampled through files.',
 ['src/properties/status.rs','src/properties/class.rs','src/properties/recur.rs','src/properties/time_transparency.rs','src/parser/mod.rs'],
 [('from_str / Display tables','src/properties/*.rs'),('weekday','src/parser/mod.rs')],
 ['FromStr and Display of Status, Class, Freq, TimeTransparency, Weekday'])
p('C06','Typed property values are read as written',
 "Property value text is converted faithfully: a date (YYYYMMDD), a floating date-time and a UTC date-time ending in Z yield that day, that wall clock time and that instant respectively, and are kept apart; text and URI values keep their raw characters and parameters; comma lists (CATEGORIES, RESOURCES, EXDATE, RDATE, FREEBUSY) yield one element per item in order; PRIORITY accepts only 0 to 9; integers are exact or an error. Periods keep their start and their end or duration, RDATE holds periods exactly when VALUE=PERIOD, TRIGGER is a duration or a date-time as written, and REQUEST-STATUS splits code, description and data at the first two semicolons.",
 ['inputs'],'every value text of every property',
 'Tests check a few literal values; wrong splitting, clamping or date/date-time confusion appear on others.',
 ['src/parser/datatype.rs','src/parser/datetime.rs','src/parser/descriptive.rs','src/parser/recurrence.rs','src/parser/alarm.rs','src/parser/change.rs','src/parser/relationship.rs','src/parser/misc.rs','src/parser/timezone.rs','src/parser/properties.rs'],
 [('value parsers','src/parser/*.rs')],
 ['fields of parsed components; FromStr of Date, DateTime, Period, Trigger, RequestStatus'])
p('C07','A duration is the signed sum of its parts',
 "A duration value [-]P[nW][nD][T[nH][nM][nS]] read from a calendar equals the sum of its weeks, days, hours, minutes and seconds, negated when it starts with a minus; the duration literals of the builder macros and of TRIGGER equal the sum of their parts, each part counted once with its own unit (year = 365 days, month = 30 days) and minutes told from months by the T. A total that does not fit, a bad unit or a missing P is an error.",
 ['inputs'],'every duration text',
 'Tests use one- or two-part durations; multi-part, negative and overflowing ones are not sampled.',
 ['src/parser/datatype.rs','src/lib.rs'],
 [('duration','src/parser/datatype.rs'),('parse_duration','src/lib.rs')],
 ['VEvent.duration, VAlarm trigger and duration, Trigger::from_str, ikal::parse_duration'])
p('C08','Folding never loses, splits or overruns text',
 "Serialising a property longer than 75 octets folds it into lines joined by CRLF and one space such that removing exactly those joints restores the unfolded line. Every piece is at most 75 octets, no piece is empty, no multi-byte character is cut, a line of at most 75 octets is not folded, and the closing CRLF is never inside a fold; folding never panics, whatever the characters.",
 ['inputs'],'every property name, parameter list and value of any length and script',
 'Tests fold one ASCII line; boundaries at 75/76 octets and multi-byte characters need other inputs.',
 ['src/ser.rs'],
 [('field / split','src/ser.rs')],
 ['ser::ical of any component'])
p('C09','Serialised text cannot break out of its line',
 "In a serialised text value every semicolon and comma is preceded by a backslash and every line break (CRLF, LF or CR) is written as \\n, while all other characters are copied unchanged and in order. Hence no text, however crafted, adds, ends or splits a line of the output, and parameter values containing a colon, semicolon or comma are quoted so that they read back unchanged.",
 ['inputs'],'every text, custom class, custom property value and parameter value (parameter values without double quotes)',
 'Tests escape one sample; an unescaped control character or a missed field shows only for other texts.',
 ['src/ser.rs','src/properties/text.rs','src/properties/uri.rs','src/content_line.rs','src/properties/request_status.rs'],
 [('escape','src/ser.rs'),('param_value / BTreeMap serialisation','src/ser.rs')],
 ['ser::ical of Text, Uri, RequestStatus, ContentLine and components'])
p('C10','A component serialises to exactly its fields',
 "Serialising a component always succeeds and writes BEGIN:NAME, then one line per non-empty field with that field's own name, parameters and value and nothing for absent fields, then custom properties, its sub-components, and END:NAME, all ended by CRLF. Every non-empty element of every collection appears exactly once and in order: comma-list fields as one list (or one line each when elements carry parameters), all others as a line or block each.",
 ['inputs'],'every value of every component type',
 'Tests serialise one sample per component, with at most one element in most collections.',
 ['derive/src/component.rs','src/ser.rs','src/components/*.rs'],
 [('derived Serialize','derive/src/component.rs'),('field','src/ser.rs')],
 ['ser::ical of every component'])
p('C11','What is serialised reads back',
 "A property line written by the serialiser is read back by the parser with the same name, the same parameters and the serialised value, whatever the length of the line, so parsing a serialised component gives a component with the same properties. In particular floating dates and date-times, durations of whole seconds, tokens, numbers, lists, recurrence rules, offsets, nested components, and text free of semicolons, commas and line breaks survive a write and a read unchanged.",
 ['inputs'],'every component built from such values; parameter values representable in iCalendar (no double quote, no line break), required fields non-empty',
 'No test serialises and re-parses anything.',
 ['src/ser.rs','src/parser/mod.rs','derive/src/component.rs'],
 [('field vs content_line','src/ser.rs, src/parser/mod.rs')],
 ['parse(ser::ical(x))'])
p('C12','One recurrence step moves by exactly FREQ times INTERVAL',
 "Adding a recurrence rule to a date or date-time moves it by INTERVAL seconds, minutes, hours, days, weeks, months or years according to FREQ: fixed-length units exactly, months and years on the calendar with the day clipped to the last day of the target month, the time of day kept. A plain date stays a plain date for daily and longer rules and becomes that midnight plus the step for shorter ones; a bare calendar day, which cannot hold a time, ignores those; floating stays floating, local stays local, and no step in the years 0 to 9999 panics, leap days and daylight-saving changes included.",
 ['inputs'],'every FREQ, INTERVAL (0..255) and start in years 0..9999',
 'Tests step a few fixed dates; month ends, leap days and unit mix-ups need others.',
 ['src/properties/recur.rs'],
 [('impl Add for Recur','src/properties/recur.rs')],
 ['Recur + Date, Recur + DateTime, Recur + NaiveDate, Recur + NaiveDateTime'])
p('C13','Recurrences enumerate exactly the permitted occurrences',
 "Iterating a component with a start and a recurrence rule considers the start, the start plus one step, that plus one step, and so on, and yields precisely those among the first COUNT of them (all, without COUNT) up to the first one later than the UNTIL day that are not listed, in the same form, in EXDATE. Each yielded occurrence has that start, its end or due date moved by the same number of steps, and every other property unchanged (its rule keeps only the remaining COUNT). A component without start or rule yields nothing, and iteration with INTERVAL of at least 1 never stalls.",
 ['inputs','histories'],'every component, rule, EXDATE list and number of calls to next',
 'Tests count a few occurrences; the interplay of COUNT, UNTIL and EXDATE over long iterations is not sampled.',
 ['src/iter.rs'],
 [('Iterator for Recur, Recurring accessors','src/iter.rs')],
 ['recurrent().next() of VEvent, VTodo, VJournal'],
 [dict(name='item',meaning='the occurrence to consider next',where='src/iter.rs Recur.item')])
p('C14','Windows select exactly the occurrences inside them',
 "For a recurrence whose occurrences advance and are of one kind (all days or all date-times), between(start, end) yields exactly the occurrences with start <= DTSTART < end in order, after(date) exactly those with DTSTART >= date, and at(date) exactly those from date up to but not including one day later. Asking for a window ends as soon as an occurrence at or past its end is reached.",
 ['inputs','histories'],'every component, rule and window',
 'Tests try one window each; boundary equality and inclusive/exclusive mix-ups need others.',
 ['src/iter.rs'],
 [('between / at / after','src/iter.rs')],
 ['recurrent().between/at/after'])
p('C15','Dates compare and shift consistently',
 "Two plain dates compare by day, two date-times by their wall clock time, and a date with a date-time by day; comparison is antisymmetric and total, and is transitive among values of one kind. Adding a time span to a date-time moves it by exactly that span, to a plain date by its whole days, and keeps its kind; the difference of two date-times is the span between their clocks; conversions between date, date-time and calendar day keep the day and the time.",
 ['inputs'],'every pair and triple of dates and date-times',
 'No test compares mixed kinds or converts between them.',
 ['src/properties/date.rs','src/properties/period.rs'],
 [('Ord, Add, Sub, From','src/properties/date.rs'),('Period::duration','src/properties/period.rs')],
 ['Date/DateTime cmp, +, -, From; Period::duration'])
p('C16','UTC offsets serialise to their exact value',
 "Every UTC offset serialises as a sign, two digits of hours, two of minutes and, only when non-zero, two of seconds; the sign is minus exactly for negative offsets, minutes and seconds are below 60, and sign x (hours x 3600 + minutes x 60 + seconds) equals the offset. Different offsets therefore never serialise alike.",
 ['inputs'],'every offset from -23:59:59 to +23:59:59',
 'The test checks +01:00 only.',
 ['src/ser.rs'],
 [('Serialize for FixedOffset','src/ser.rs')],
 ['ser::ical(&FixedOffset), TZOFFSETFROM/TZOFFSETTO lines'])
p('C17','Recurrence rules are read and written faithfully',
 "Reading a recurrence rule fills each part (FREQ, UNTIL, COUNT, INTERVAL, BYSECOND .. BYSETPOS, WKST) from the item of that name only, in any order, with lists in source order, INTERVAL 1 and empty lists when absent; a missing FREQ or an invalid or out-of-range number, weekday or date is an error. Writing a rule emits FREQ, then the present parts under their own names joined by semicolons, with lists joined by commas, such that reading the text back gives an equal rule (UNTIL being a date or a floating date-time).",
 ['inputs'],'every rule text and every rule value',
 'Tests print two rules; most parts are never written and none is read back.',
 ['src/parser/recurrence.rs','src/properties/recur.rs','derive/src/serialize.rs'],
 [('rrule','src/parser/recurrence.rs'),('derived Serialize for Recur','derive/src/serialize.rs')],
 ['FromStr and ser::ical of Recur'])
p('C18','Alarms keep their kind',
 "An alarm is read as audio, display or e-mail exactly according to its (first) ACTION, any other or missing ACTION being an error. Turning an audio, display or e-mail alarm into a generic alarm sets the matching ACTION and changes nothing else. A generic alarm serialises as one BEGIN:VALARM .. END:VALARM block holding exactly its own property lines.",
 ['inputs'],'every alarm of the three kinds and every ACTION text',
 'Tests serialise one audio alarm; the other kinds and error cases are not covered.',
 ['src/components/valarm.rs'],
 [('TryFrom<Vec<ContentLine>>, From, Serialize for VAlarm','src/components/valarm.rs')],
 ['VAlarm parse, From<Audio|Display|Email>, ser::ical'])
p('C19','Builder macros build the component they spell out',
 "The vcalendar!, vevent!, vtodo!, vjournal!, vfreebusy!, vtimezone! and valarm! macros build, for every accepted invocation, the component whose named fields hold the given values (parsed or converted as needed) and whose other fields are defaults, or return the parse error of an invalid literal.",
 ['programs'],'every macro invocation a program can contain',
 'Each test is one fixed program; the quantifier ranges over programs at compile time.',
 ['derive/src/macros.rs','src/lib.rs'],
 [('impl_macro','derive/src/macros.rs')],['macro results'])
p('C20','Decimal numbers keep their value',
 "Geographic positions and request status codes are read to the nearest representable number of their decimal text and printed as decimal text that reads back to the same number (status codes to one decimal place).",
 ['inputs'],'every decimal text and every finite number',
 'Tests use two literals.',
 ['src/parser/descriptive.rs','src/parser/misc.rs','src/properties/geo.rs','src/properties/request_status.rs'],
 [('nom float, Display of f32','src/parser/descriptive.rs, src/properties/geo.rs')],['Geo, RequestStatus'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
