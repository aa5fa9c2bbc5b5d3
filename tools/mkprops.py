#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the statements stay readable in review)."""
import json, os
R='src/result.cpp'; X='src/parsers/parsers.cpp'; U='src/utils/utils.hpp'; UC='src/utils/utils.cpp'
E='src/parsers/en/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

KV=[("known/implied component values","per component: is it stated, and its value",R)]
p("C01","Setting a date/time component is visible exactly there",
 "After any component (year, month, day of month, weekday, hour, minute, second, timezone offset) of a parsed date is set, its reader returns exactly the value set and the certainty query for that component answers yes. No other component's value or certainty changes.",
 ["histories","inputs"],"every component, every value, every history of earlier set/imply calls",
 "The tests set one fixed date and read it back; they never query certainty and never look at the other components after each call, so a cross-wired component survives.",
 [R,"src/result.hpp"],[("setters, getters and the certainty query",R)],["component readers","certainty query"],KV)
p("C02","Implied values fill gaps and never override stated ones",
 "Implying a value for a component that has been stated leaves that component's value and certainty unchanged; implying it for an unstated component makes the reader return the implied value while the component stays uncertain. Implying one component never changes another, and an unknown component name changes nothing.",
 ["histories","inputs"],"every component, every value, every order of set and imply calls",
 "No test implies a component after setting it; every parser relies on it for every reference date.",
 [R],[("imply operation and readers",R)],["component readers","certainty query"],KV)
p("C03","Copies of results and components are faithful",
 "Copying or assigning a parsed date preserves every component's value and certainty. Copying or assigning a parsed result preserves its position, text length, tags, start date, whether it is a range, and, for a range, the end date.",
 ["inputs","histories"],"every result content, every component, every chain of copies",
 "One test copies a result without components, tags or range; the parse pipeline copies every result a dozen times.",
 [R,"src/result.hpp"],[("copy constructors and assignment operators",R)],["result accessors"])
p("C04","Rendered dates show the result's own components",
 "The textual rendering of a result shows the year, month, day, hour, minute and second of its start, each in its own place, and shows an end exactly when the result is a range, built the same way from the end date. When a timezone was recognised the recognised offset is applied to both the start and the end.",
 ["inputs"],"every component valuation, range or not, timezone or not",
 "No test calls the rendering at all.",
 [R],[("rendering of start and end through calendar time structs",R)],["stdout of the command line program"])
p("C05","Only results that denote a real date are reported",
 "Every result a parser reports carries a start whose year, month and day form an existing calendar date, and, when it is a range, an end that does too. Text that matches a pattern but yields no such date produces no result.",
 ["inputs"],"every input text and reference date",
 "Tests use well-formed dates only; impossible dates and half-filled results need particular inputs (30 February, '10:75:30').",
 [R,X],[("gate in the scan loop that admits a result",X),("possible-date predicate",R)],["results of a parse"])
p("C06","The scan covers the whole text, in order, and always ends",
 "A parse reports matches from left to right without overlap: after each match the search resumes exactly at the end of that match, until no match is left. Every recognised pattern consumes at least one character, so the scan ends on every input.",
 ["inputs"],"every input text, every parser, any number of matches",
 "Tests have one expression per text, so the second and later iterations of the scan are never observed.",
 [X,E],[("scan loop",X),("patterns of all parsers",E)],["number, order and position of results"])
p("C07","Reported positions are offsets into the whole input",
 "The position of every reported result is the offset in the complete input text where its text stands - for the first as well as every later match - and that text is the pattern match that produced it, without what the pattern may take in front of the expression (blanks, or one separating character, never a part of a word of it); position plus text length is the end of that match.",
 ["inputs"],"every input text, any number of matches",
 "Tests check the position of a first match only; refiners use the positions of all matches to cut the text.",
 [X,R,E],[("offset computation in the scan loop",X),("results built from the match",E)],["position and text length accessors"])
p("C08","Letter case of the input never matters",
 "Two inputs that differ only in letter case give the same results: recognition, number and month and weekday words, am/pm markers and keywords are all interpreted independently of case.",
 ["inputs"],"every input text in every casing",
 "Tests use a couple of capitalised words; the case handling is spread over the scan loop, the patterns and each parser's own keyword comparisons.",
 [X,E,UC],[("lower-casing before matching",X),("keyword comparisons",E)],["results of a parse"])
p("C09","No input text makes a parse throw",
 "Scanning any text against any reference date returns normally: numbers too large to represent, impossible dates and out-of-range date arithmetic lead to no result, never to an exception leaving the parser.",
 ["inputs","fault_sequences"],"every input text and reference date; every throwing library call reachable from a parse",
 "Tests use small numbers and existing dates; the throwing values are unbounded ('in 99999999999 days', 'feb 31').",
 [X,E,UC],[("exception handling around extraction",X),("numeric conversion and calendar arithmetic",E)],["exceptions leaving a parse"])
p("C10","A parse depends only on the text and the reference date",
 "Parsing has no memory and no hidden inputs: it never modifies the shared vocabulary tables or any other state that outlives the call, never reads the clock, environment or uninitialised or dead storage, and never changes the reference date. Parsing the same text against the same reference therefore always gives the same results, whatever was parsed before.",
 ["histories","inputs"],"every sequence of parses in one process",
 "A test would have to try every earlier parse; uninitialised reads give whatever the stack holds.",
 [X,E,UC,U],[("shared vocabulary tables",U),("extraction of each parser",E)],["results of repeated parses"])
p("C11","Documented expressions are recognised",
 "Every pattern is a valid regular expression, and every documented kind of expression is recognised in full by its parser: casual dates and times, weekdays with this/last/next, 'in N units', 'N units ago' and 'later', last/next weeks and other units, ISO dates, month names with day and year, clock times and ranges, and the U.S. holidays. This holds for every number, unit, month, weekday and holiday of the vocabulary.",
 ["inputs"],"every expression of the documented families (all numbers, units, month and weekday names, holidays)",
 "The families are infinite or large products; tests sample a handful of phrases and several of them fail today.",
 [E,"README.md"],[("regular expressions of all parsers",E)],["results of a parse"])
p("C12","Vocabulary tables carry the right meanings",
 "Number words, ordinal words, month names, weekday names and timezone abbreviations stand for their standard values: one..twelve, first..thirty-first, months 1..12, Sunday=0..Saturday=6, and the civil UTC offset in minutes for each abbreviation. No word of these vocabularies is missing or mapped to a neighbour's value.",
 ["inputs"],"every entry of every table",
 "Tests read back the same tables or touch three or four entries.",
 [U],[("static tables",U)],["dates resolved from words"])
p("C13","Every word a pattern accepts is known where it is looked up",
 "Whenever recognised text is looked up in a vocabulary table, every word the pattern can deliver at that place is in the table or the miss is handled explicitly; an accepted word is never silently read as zero.",
 ["inputs"],"every word in the language of each capture group reaching a lookup",
 "The language of a group is large; a missing spelling shows only when that very spelling is typed ('may.', 'last dozen weeks').",
 [E,U,UC],[("table lookups keyed by matched text",E)],["results of a parse"])
p("C14","Results carry the tag of the parser that produced them",
 "Every result reported by a parser that has a tag of its own carries that tag and no other parser's tag, on every path on which a result is produced; merged results keep the tags of both sources and add the merging refiner's tag. Asking for a tag changes nothing.",
 ["inputs"],"every parser, every path to a reported result, every merge",
 "Only one test looks at a tag.",
 [E,"src/refiners/en/","src/refiners/ExtractTimeZoneAbbreviation.hpp"],[("tagging calls",E)],["tag query on results"])
p("C15","Casual dates resolve to the right day",
 "today, tonight and now give the reference's date, yesterday the day before, and tomorrow (or tmr) the day after except during the hour that follows midnight, when it still means the running day; last night is the previous date unless the reference is before 7 am. now also fixes the reference's hour, minute and second; tonight implies 22h, last night 0h, and yesterday the reference's hour.",
 ["inputs"],"every reference date and time, every casual date word",
 "Tests use one reference date in mid-month and one time of day.",
 [E+"ENCasualDateParser.hpp"],[("day arithmetic per keyword",E+"ENCasualDateParser.hpp")],["components of the result"])
p("C16","Casual times resolve to their hour on the reference day",
 "morning, noon, afternoon, evening and night (with or without 'this') imply 6h, 12h, 15h, 20h and 20h on the reference's own year, month, day and weekday, and no calendar or clock component is reported as certain.",
 ["inputs"],"every reference, every casual time word",
 "Tests use two references; certainty, on which merging depends, is never checked.",
 [E+"ENCasualTimeParser.hpp"],[("hour per keyword",E+"ENCasualTimeParser.hpp")],["components of the result"])
p("C17","Weekday names resolve within the right calendar week",
 "A weekday name resolves to that weekday in the reference's own Sunday-to-Saturday week; with last it is that weekday of the previous week and with next that of the following week, whether the word stands before or after the name. The date is certain with last or next and implied otherwise; earlier/early imply 6h and late 20h.",
 ["inputs"],"all 7x7 weekday pairs, all modifiers, every reference date",
 "The existing weekday tests fail and use a single reference weekday.",
 [E+"ENDayOfTheWeekParser.hpp"],[("weekday arithmetic",E+"ENDayOfTheWeekParser.hpp")],["components of the result"])
p("C18","Deadlines move forward by exactly the stated amount",
 "'in' or 'within' N units resolves to the reference moved forward by exactly N of that unit, for number words, digits, a/an (1) and a few (3), carrying over midnight, month and year ends. half a unit means 30 seconds, 30 minutes, 12 hours, 3 days, 15 days and 6 months for minute, hour, day, week, month and year.",
 ["inputs"],"every number of up to seven digits whose result stays within the years 1400-9999, every accepted unit spelling, every reference moment",
 "Tests use the current time as reference and five phrases, and only one of them passes.",
 [E+"ENDeadlineFormatParser.hpp"],[("number and unit dispatch",E+"ENDeadlineFormatParser.hpp")],["components of the result"])
p("C19","'ago' goes back and 'later' forward by the stated amount",
 "For a duration made of years, months, weeks, days, hours, minutes and seconds, 'ago' (before, earlier) resolves to the reference moved back, and 'later' (after, from now, ...) to the reference moved forward, by each stated amount in its own unit (half a unit as for deadlines). The clock fields are reported when a time unit is stated and the calendar fields are certain when a calendar unit is stated.",
 ["inputs"],"every duration of one or two amounts (one or more of a unit, numbers of up to seven digits) whose result stays within the years 1400-9999, every reference moment, both directions",
 "The existing tests of both parsers fail; none combines units.",
 [E+"ENTimeAgoFormatParser.hpp",E+"ENTimeLaterParser.hpp",UC],[("fragment extraction",UC),("date arithmetic per fragment",E)],["components of the result"])
p("C20","this/next/last units shift or span correctly",
 "'next' N units moves the reference forward and 'last' or 'past' N units back by N of that unit (1 when no number is given, 3 for few, half a unit as for deadlines). 'this week', 'this month' and 'this year' give a range from the first to the last day of the reference's own Sunday-to-Saturday week, month or year.",
 ["inputs"],"every modifier, number of up to seven digits, unit and reference moment whose result stays within the years 1400-9999",
 "The existing tests fail and use one reference date.",
 [E+"ENRelativeDateFormatParser.hpp"],[("modifier, number and unit dispatch",E+"ENRelativeDateFormatParser.hpp")],["components of the result"])
p("C21","Week expressions move by whole weeks",
 "'next' or 'last' N weeks (one week when no number is given, number words or digits otherwise) gives the reference date moved forward or back by exactly N weeks, and 'this week' the reference date itself; a word that is not a number gives no result.",
 ["inputs"],"every number of up to seven digits whose result stays within the years 1400-9999, every word, every reference date",
 "Tests use the numbers one and two.",
 [E+"ENWeekExperessionParser.hpp"],[("week arithmetic",E+"ENWeekExperessionParser.hpp")],["components of the result"])
p("C22","ISO timestamps are read field by field",
 "An ISO date or timestamp yields exactly the stated year, month, day and, when present, hour, minute and second, all certain; a date that does not exist, an hour above 24 and a minute or second above 59 give no result. A timestamp's offset is the stated hours and minutes with the sign applied to both, and zero when none is stated.",
 ["inputs"],"every digit string the pattern accepts",
 "Tests cover three timestamps, none with an offset and none out of range.",
 [E+"ENISOFormatParser.hpp"],[("field conversion and range check",E+"ENISOFormatParser.hpp")],["components of the result"])
p("C23","Month names resolve to that month of the right year",
 "A month name gives that month, with the stated four-digit year when there is one (AD as written, BE 543 earlier, no result for BC years) and otherwise the year that puts it closest to the reference date. The month is certain, the day is implied to be the first, and the year is certain only when stated.",
 ["inputs"],"every month spelling, year, era and reference date",
 "Tests always state a four-digit year without era.",
 [E+"ENMonthNameParser.hpp"],[("month lookup, era and nearest-year choice",E+"ENMonthNameParser.hpp")],["components of the result"])
p("C24","Month and day expressions give that day and range",
 "A month name followed by a day (digits or ordinal word) gives exactly that month and day, in the stated year (same era rules) or else (except for February 29) the year that puts it closest to the reference; a named weekday is kept as stated. A day range ends on the second day of the same month and year, at 23:59.",
 ["inputs"],"every month, day, ordinal, year, era, range and reference date",
 "Every existing test of this parser fails.",
 [E+"ENMonthNameMiddleEndianParser.hpp"],[("day and month conversion, range end",E+"ENMonthNameMiddleEndianParser.hpp")],["components of the result"])
p("C25","Clock times are read correctly in both notations",
 "A clock time yields the stated hour, minute and second; 'am' maps 12 to 0, 'pm' adds 12 except at 12, noon is 12h, midnight 0h, and bare 3-4 digit numbers are read as hours and minutes. An hour beyond 24, a minute or second beyond 59, or an hour beyond 12 with am/pm gives no result, and the date is implied from the reference.",
 ["inputs"],"every digit string, marker and reference",
 "Tests sample about ten times of the thousands of combinations.",
 [E+"ENTimeExpressionParser.hpp"],[("hour, minute, second and meridiem logic",E+"ENTimeExpressionParser.hpp")],["components of the result"])
p("C26","Clock ranges keep both ends valid and ordered by meridiem",
 "A clock range reports both times; an end without am/pm takes the start's marker and a start without one takes a 'pm' from the end, and both ends always stay valid clock readings (hour at most 24, minute and second below 60). An invalid end time gives no range.",
 ["inputs"],"every combination of start and end notation",
 "Tests cover three ranges; the mixed-notation combinations that overflow are never tried.",
 [E+"ENTimeExpressionParser.hpp"],[("range end logic",E+"ENTimeExpressionParser.hpp")],["start and end components of the result"])
p("C27","U.S. holidays fall on their defined day every year",
 "Each recognised holiday resolves, in the reference's year, to its legal definition: fixed days for New Year (Jan 1; eve Dec 31), Independence (Jul 4), Veterans (Nov 11), Christmas (Dec 25; eve Dec 24), and the defined weekday for MLK (3rd Monday Jan), Presidents (3rd Monday Feb), Memorial (last Monday May), Labor (1st Monday Sep), Columbus (2nd Monday Oct), Thanksgiving (4th Thursday Nov) and Black Friday (the day after). The weekday reported with a floating holiday is the weekday of that date.",
 ["inputs"],"every reference year, every holiday spelling the pattern accepts",
 "The test uses one year and stops at the first failing phrase.",
 [E+"ENUSHolidaysParser.hpp"],[("holiday definitions",E+"ENUSHolidaysParser.hpp")],["components of the result"])
p("C28","Overlap removal keeps the longest of overlapping results",
 "Given results ordered by position, overlap removal returns a subsequence in the same order in which no two neighbours overlap; where results overlap, the longer survives, and the earlier one on a tie. Results that merely touch are all kept, and nothing is lost otherwise.",
 ["inputs"],"every list of results, every ordering of positions and lengths",
 "The test has one overlapping pair.",
 ["src/refiners/OverlapRemovalRefiner.hpp"],[("overlap and length comparisons",'src/refiners/OverlapRemovalRefiner.hpp')],["refined list"])
p("C29","Date and time merge into one result with both contents",
 "Merging a date-only and a time-only result takes the calendar fields from the date and the clock fields from the time, for the start and, if either is a range, for the end; certainty of hour, minute and second follows the time result. When a same-day range would end before it starts, the end moves to the next calendar day; the merged text covers exactly both sources. They merge only when nothing but blanks or a joining word (T, at, on, of, a comma, a dash) stands between them, and a timezone stated with the time is kept.",
 ["inputs"],"every pair of results in either order, ranges on either side",
 "There is no test of this refiner.",
 ["src/refiners/en/ENMergeDateAndTimeRefiner.hpp"],[("component merge and result merge",'src/refiners/en/ENMergeDateAndTimeRefiner.hpp')],["refined list"])
p("C30","Two dates joined by a range word become one ordered range",
 "Merging two single dates gives one range whose start is the earlier and whose end is the later of the two, whichever was written first, positioned at the first and covering exactly the text of both. They merge only when the text between them is just a range word (and, to, through, -).",
 ["inputs"],"every pair of dates in either order",
 "There is no test of this refiner.",
 ["src/refiners/en/ENMergeDateRangeRefiner.hpp"],[("range merge",'src/refiners/en/ENMergeDateRangeRefiner.hpp')],["refined list"])
p("C31","A timezone after a time sets that zone's offset",
 "A recognised abbreviation right after a clock time sets that zone's offset on the start and, for a range, on the end, unless an offset was already stated, marks the result as timezone-adjusted and extends its text over the abbreviation. Other results and unknown abbreviations are left untouched.",
 ["inputs"],"every abbreviation, every result",
 "The test has one abbreviation, no range, and reads the expected value from the same table.",
 ["src/refiners/ExtractTimeZoneAbbreviation.hpp"],[("abbreviation lookup and offset assignment",'src/refiners/ExtractTimeZoneAbbreviation.hpp')],["refined list"])
p("C32","Refiners neither lose nor duplicate results",
 "Every result given to a merging or timezone refiner appears in its output exactly once, either itself or as part of exactly one merged result, and the output keeps the input order. Lists of zero or one result come back unchanged.",
 ["inputs"],"every list of results of every length, every combination of mergeable neighbours",
 "No test refines a list of two or more results with these refiners.",
 ["src/refiners/"],[("refine loops",'src/refiners/')],["refined list"])
p("C33","The program combines all parsers and refines in order",
 "The command line program runs every registered parser once on the same text and reference, orders the combined results by position, removes overlaps before any merging, merges dates with times before joining ranges, and prints the first remaining result. The system clock is read only when no reference date is given.",
 ["inputs","configurations"],"every text and reference date argument",
 "The tests never run the program.",
 ["time.cpp"],[("parser and refiner lists, sort, refine loop, output",'time.cpp')],["stdout of the program"])
p("C34","A parse finishes within time and stack bounds on long text",
 "Scanning a text takes time and stack space bounded by a small polynomial in its length, so no input of realistic size exhausts the stack or hangs.",
 ["inputs"],"every input text up to a stated length",
 "Cost depends on the regular-expression engine of the standard library on adversarial input.",
 [X,E],[("regular expression search",X)],["running time, stack use"])
p("C35","The best reading of ambiguous text is chosen",
 "When several expressions in a sentence could be meant, the reported result is the one a reader would choose.",
 ["inputs"],"every natural language sentence",
 "There is no oracle for intent; tests list a few sentences.",
 ["time.cpp",E],[("order of parsers and refiners",'time.cpp')],["stdout of the program"])
p("C36","A match never ends in white space",
 "The text matched for an expression never ends in white space, so two expressions separated only by a blank are both found and neither takes the blank the other needs.",
 ["inputs"],"every text each pattern matches",
 "Tests have one expression per text; a pattern that swallows the following blank only shows when the next expression starts right after it.",
 [X,E],[("patterns of all parsers",E),("scan loop",X)],["text of results, results of a parse"])
p("C37","Exactly what an expression fixes is reported as certain",
 "Casual dates other than now, holidays, month-day expressions and ISO dates make year, month and day certain and no clock field of the start; now makes hour, minute and second certain too, and ISO timestamps the clock fields and offset they state. A month name makes the month and a stated year certain, last or next with a weekday the date, a clock time or range its hours, minutes and stated seconds and no calendar field; 'ago' and 'later' make the calendar fields certain for calendar units, the clock for time units. Casual times, bare weekdays, deadlines, week expressions and last/next units make nothing certain, 'this month' only year and month, 'this year' only the year. The weekday is certain only when named or for a floating holiday.",
 ["inputs"],"every expression of the phrase families, every component of start and end, every reference",
 "Tests read values and hardly ever ask for certainty, which decides what merging may combine ('christmas at 5pm').",
 [E,R],[("set versus imply calls of every parser",E)],["certainty query"])
p("C38","Clock fields that nothing states or implies read midnight",
 "An expression that names only days (today, tomorrow, last night, weekdays, week expressions, whole days, weeks, months and years in any direction, month names and days, ISO dates, holidays) denotes midnight: hour, minute and second of its start read zero, and so do those of the end of 'this week', 'this month' and 'this year'; tonight, yesterday and early/late weekdays imply a clock instead. A clock time without seconds reads zero seconds, and the offset reads zero unless one is stated.",
 ["inputs"],"every expression of these families and every reference moment",
 "The value shows only in the printed date; tests compare the day.",
 [E,R],[("set and imply calls of every parser",E)],["component readers","stdout of the program"])
p("C39","The program shows the moment a lone expression denotes",
 "Given one expression of the supported families (casual dates and times, weekdays with or without a modifier, week expressions, deadlines, 'ago' and 'later', ISO dates and timestamps, clock times and ranges, month names, month days and ordinals with or without weekday, year or end day, holidays), the command line program shows exactly the moment that expression denotes relative to the reference: no other parser's reading of a part of the text, and no refiner, replaces or changes it, whatever the spacing. ('noon' on its own is excepted: two parsers read it.)",
 ["inputs"],"every text of the families, every spacing, every reference",
 "Tests run one parser at a time; which of several readings survives shows only in the whole program and depends on the lengths of the texts.",
 ['time.cpp',E,R],[("registration, overlap removal and merging in main",'time.cpp'),("matched text and index of every parser",E)],["stdout of the program"])
p("C40","A date and a clock time side by side denote one moment",
 "A casual date, weekday, holiday, deadline in days, 'weeks ago', month day, month with year or ISO date next to a clock time - in either order, joined by a blank, a comma and a blank, 'at' (before the time) or 'on' (before the date) - is shown by the program as one moment: the date of the first and exactly the stated hour and minute of the second, both reported as certain. (A month with year that follows a clock time stands behind a comma: right behind a number it is not read.)",
 ["inputs"],"every such pair, every reference",
 "Tests merge two or three fixed sentences; parsers, overlap removal and both mergers have to agree on text boundaries and certainty.",
 ['time.cpp',R,E],[("merging",R),("matched text and certainty of every parser",E)],["stdout of the program"])
p("C41","Two dates joined by a range word are shown as one ordered range",
 "Two month days with years, ISO dates, casual dates, holidays or deadlines in days joined by 'to', 'through', 'and' or a dash (the dash not between ISO dates or deadlines) are shown by the program as exactly one range: the earlier date is the start and the later the end, whichever is written first. When both carry a stated clock time ('yesterday at 5am to today at 3pm') the range keeps both clock times.",
 ["inputs"],"every such pair, every reference",
 "Ordering matters only when the later date is written first and the ends differ in every component; tests hold one or two ranges.",
 ['time.cpp',R,E],[("range merging",R)],["stdout of the program"])
p("C42","Of several expressions in a text the program shows the first",
 "When a text holds several date or time expressions (casual dates and times, weekdays, deadlines, amounts ago or later, month days with year, ISO dates, clock times with am or pm, holidays) that are kept apart by words which join nothing ('or', 'but not', 'see you'), the moment the program shows is the one denoted by the expression that stands first in the text, exactly as if it stood alone; whatever follows changes neither its values nor its certainty. For a text without any expression no moment is shown.",
 ["inputs"],"every such text of two or three expressions, every reference",
 "Which result is shown depends on sorting, overlap removal and merging over the results of all fourteen parsers together; tests run one parser on one expression.",
 ['time.cpp',R,E],[("order of the results, overlap removal, merging",R)],["stdout of the program"])
p("C43","A date and a clock range side by side denote one range on that date",
 "A date (today, tomorrow, yesterday; a deadline in days; a month day with year; an ISO date; Christmas) written next to a clock range with am or pm ('tomorrow, from 9:30pm to 2am', '5pm - 7pm on yesterday') is shown by the program as one range: it starts on that date at the first clock time and ends at the second clock time, on the same date, or on the next day when the second clock time is earlier than the first. The date comes first, separated by a blank or by a comma and a blank, or, for casual dates, deadlines and holidays, it may follow after a blank, a comma or 'on'.",
 ["inputs"],"every such pair, every reference",
 "The end of a range passes through merging separately from the start, and only a range over midnight at the end of a month or year shows what happens to its date.",
 ['time.cpp',R,E],[("merging of date and time",R)],["stdout of the program"])
p("C44","A clock time with a timezone name keeps the zone's offset in the program",
 "A clock time or clock range followed by a blank and a known timezone abbreviation (bare or in parentheses: EST, PST, CET, JST, NPT, UTC) ends up in the result the program shows with exactly that zone's offset in minutes, stated as certain, on the start and on the end of a range, and marked as given by a timezone; its clock, date and, when a date stands next to it, the merging with that date are what they are without the abbreviation. A zone that belongs to a later expression leaves the first one alone.",
 ["inputs"],"every such text, every reference",
 "Offset and mark are set by one refiner and must survive two merging ones on results that parsers and refiners copy; tests look at refiners one at a time or not at all.",
 ['time.cpp',R,'src/refiners/ExtractTimeZoneAbbreviation.hpp'],[("timezone extraction and merging",'src/refiners')],["stdout of the program"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
