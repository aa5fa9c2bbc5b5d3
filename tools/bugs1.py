R='src/result.cpp'; P='src/parsers/parsers.cpp'; E='src/parsers/en/'; U='src/utils/utils.hpp'; UC='src/utils/utils.cpp'
F='src/refiners/'; FE='src/refiners/en/'
D='2018-07-18 14:33:00'
BUGS=[
dict(id='c01-zero-second-uncertain',prop='C01',edits=[(R,'knownValues["sec"].first    = true;','knownValues["sec"].first    = sec != 0;')],
 needs='a stated second that is exactly zero',breaks='a second set to 0 is not reported as certain',
 cpp='''parse::ParsedComponents c; c.implyComponent("sec", 7); c.setSeconds(0); CHECK(c.isCertain("sec")); CHECK(c.getSeconds()==0);'''),
dict(id='c02-minute-gap',prop='C02',edits=[(R,'if (!knownValues["min"].first) {','if (!knownValues["hour"].first) {')],
 needs='the hour stated and the minute not, then the minute implied',breaks='an implied minute is dropped when the hour is stated',
 cpp='''parse::ParsedComponents c; c.setHour(9); c.implyComponent("min", 30); CHECK(c.getMinute()==30); CHECK(!c.isCertain("min"));'''),
dict(id='c03-assign-range-sticks',prop='C03',edits=[(R,'__end     = pr.end();','__end     = __end or pr.end();')],
 needs='a result that was a range is assigned a result that is not',breaks='the target stays a range with a stale end',
 cpp='''parse::ParsedResult a(T("2018-01-01 00:00:00"),0,"x"), b(T("2018-01-01 00:00:00"),5,"yy"); a.makeEndDateValid(); a=b; CHECK(!a.end()); CHECK(a.getIndex()==5);'''),
dict(id='c04-end-seconds-of-start',prop='C04',edits=[(R,'date_end.tm_sec  = endDate.getSeconds();','date_end.tm_sec  = startDate.getSeconds();')],
 needs='a range whose ends differ in seconds',breaks='the end is printed with the seconds of the start',
 cli=[('from 5:10:20 to 6:11:25',D,'Date:\\t2018-Jul-18 05:10:20 - 2018-Jul-18 06:11:25')]),
dict(id='c05-end-unchecked',prop='C05',edits=[(P,'if(/*!strictMode or */res.hasPossibleDates()) {','if(/*!strictMode or */res.startDate.isPossibleDate()) {')],
 needs='a day range whose second day does not exist in the month',breaks='a range ending on February 31 is reported',
 cpp='''string t="feb 20 - 31"; auto ref=T("2018-07-18 14:33:00"); parser::ENMonthNameMiddleEndianParser p; auto r=p.execute(t,ref);
for(auto& x: r) CHECK(!x.end() or x.endDate.isPossibleDate());'''),
dict(id='c06-length-of-result',prop='C06',edits=[(P,'remainingText = text.substr(idx + match.length(0));','remainingText = text.substr(idx + res.textLength());')],
 needs='a match whose extraction fails on an unrepresentable number',breaks='the scan resumes at the same match and never ends',
 cpp='''string t="99999999999 years ago"; auto ref=T("2018-07-18 14:33:00"); parser::ENTimeAgoFormatParser p;
alarm(5); auto r=p.execute(t,ref); CHECK(r.empty());'''),
dict(id='c07-offset-after-rejected',prop='C07',edits=[(P,'idx = match.position(0) + text.length() - remainingText.length();','idx = match.position(0) + (results.empty() ? 0 : text.length() - remainingText.length());')],
 needs='an earlier match that was rejected',breaks='the position of the first accepted result is relative to the rest of the text',
 cpp='''string t="2018-02-31 and 2018-03-01"; auto ref=T("2018-07-18 14:33:00"); parser::ENISOFormatParser p; auto r=p.execute(t,ref);
CHECK(r.size()==1); CHECK(r.size()==1 and r[0].getIndex()==15);'''),
dict(id='c08-first-match-lowered-only',prop='C08',edits=[(P,'text = utils::toLowerCase(text);\n    std::string remainingText = text;','std::string remainingText = utils::toLowerCase(text);')],
 needs='upper case in a later match of the same text',breaks='later matches are looked up in their original case',
 cpp='''string t="monday, then TUESDAY"; auto ref=T("2018-07-18 14:33:00"); parser::ENDayOfWeekParser p; auto r=p.execute(t,ref);
CHECK(r.size()==2); CHECK(r.size()==2 and r[1].startDate.get_mDay()==17);'''),
dict(id='c09-early-date-arithmetic',prop='C09',edits=[(P,'        if(/*!strictMode or */res.hasPossibleDates()) {','        if(/*!strictMode or */!(res.startDate.isCertain("mday") and res.startDate.date().is_special()) and res.hasPossibleDates()) {')],
 needs='a match that yields no existing date',breaks='an impossible date makes the parse throw',
 cpp='''string t="february 30 2018"; auto ref=T("2018-07-18 14:33:00"); parser::ENMonthNameMiddleEndianParser p; bool threw=false;
try { p.execute(t,ref); } catch(...) { threw=true; } CHECK(!threw);'''),
dict(id='c10-remembered-year',prop='C10',edits=[(E+'ENUSHolidaysParser.hpp','day = lastMondayInMay.get_date(ref.date().year());','static const int holidayYear = ref.date().year();\n                day = lastMondayInMay.get_date(holidayYear);')],
 needs='two parses with references in different years',breaks='the second parse answers for the year of the first',
 cpp='''parser::ENHolidayParser p; string a="memorial day", b="memorial day"; auto r1=T("2018-01-10 00:00:00"), r2=T("2021-01-10 00:00:00");
p.execute(a,r1); auto r=p.execute(b,r2); CHECK(r.size()==1 and r[0].startDate.getYear()==2021 and r[0].startDate.get_mDay()==31);'''),
dict(id='c11-nineteenth-typo',prop='C11',edits=[(E+'ENMonthNameMiddleEndianParser.hpp','seventeenth|eighteenth|nineteenth|twentieth|)"\n                                            R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|thirtieth)"','seventeenth|eighteenth|ninteenth|twentieth|)"\n                                            R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|thirtieth)"')],
 needs='the one ordinal word',breaks='"june nineteenth" is not recognised as a day',
 cli=[('june nineteenth 2018',D,'Date:\\t2018-Jun-19 00:00:00')]),
dict(id='c12-chadt',prop='C12',edits=[(U,'{"CHADT", 825}','{"CHADT", 765}')],
 needs='the Chatham daylight abbreviation',breaks='CHADT is read as the standard-time offset',
 cpp='''CHECK(utils::DEFAULT_TIMEZONE_ABBR_MAP.at("CHADT")==825);'''),
dict(id='c13-thur-missing',prop='C13',edits=[(U,'{"thursday", 4}, {"thur", 4}, {"thurs", 4}, {"thu", 4}','{"thursday", 4}, {"thurs", 4}, {"thu", 4}')],
 needs='the abbreviation thur',breaks='the pattern accepts a weekday the table does not know; it is read as Sunday',
 cpp='''string t="thur"; auto ref=T("2018-07-18 14:33:00"); parser::ENDayOfWeekParser p; auto r=p.execute(t,ref);
CHECK(r.size()==1 and r[0].startDate.get_mDay()==19);'''),
dict(id='c14-merge-loses-time-tag',prop='C14',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','if(timeResult.getTag(mod))','if(dateResult.getTag(mod))')],
 needs='a merged date and time',breaks='the merged result lacks the tag of the time',
 cpp='''string t="tomorrow at 5pm"; auto ref=T("2018-07-18 14:33:00"); parser::ENCasualDateParser a; parser::ENTimeExpressionParser b;
Result r; for(auto& x: a.execute(t,ref)) r.push_back(x); for(auto& x: b.execute(t,ref)) r.push_back(x);
std::sort(r.begin(),r.end(),[](parse::ParsedResult x, parse::ParsedResult y){return x.getIndex()<y.getIndex();});
ENMergeDateAndTime m; auto o=m.refine(r,t); CHECK(o.size()==1 and o[0].getTag(utils::ENTimeExpressionParser) and o[0].getTag(utils::ENCasualDateParser));'''),
dict(id='c15-last-night-at-seven',prop='C15',edits=[(E+'ENCasualDateParser.hpp','if(ref.time_of_day().hours() > 6) {','if(ref.time_of_day().hours() > 7) {')],
 needs='a reference between 7:00 and 7:59',breaks='last night means the running day at 7 am',
 cli=[('last night','2018-07-18 07:15:00','Date:\\t2018-Jul-17 00:00:00')]),
dict(id='c16-certain-weekday',prop='C16',edits=[(E+'ENCasualTimeParser.hpp','result.startDate.implyComponent("wday", ref.date().day_of_week());','result.startDate.set_wDay(ref.date().day_of_week());')],
 needs='asking for the certainty of the weekday',breaks='a casual time reports the weekday as certain',
 cpp='''string t="this evening"; auto ref=T("2018-07-18 14:33:00"); parser::ENCasualTimeParser p; auto r=p.execute(t,ref);
CHECK(r.size()==1 and !r[0].startDate.isCertain("wday") and r[0].startDate.get_wDay()==3);'''),
dict(id='c17-last-same-weekday',prop='C17',edits=[(E+'ENDayOfTheWeekParser.hpp','gregorian::date tmp = start - gregorian::weeks(1);\n                if(offset < start.day_of_week().as_number()) {','gregorian::date tmp = start - gregorian::weeks(1);\n                if(offset <= start.day_of_week().as_number()) {')],
 needs='last with the weekday of the reference itself',breaks='"last wednesday" on a Wednesday goes back two weeks',
 cpp='''string t="last wednesday"; auto ref=T("2018-07-18 14:33:00"); parser::ENDayOfWeekParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].startDate.get_mDay()==11);'''),
dict(id='c18-many-hours',prop='C18',edits=[(E+'ENDeadlineFormatParser.hpp','tmpTime += posix_time::hours(static_cast<int>(num));','tmpTime += posix_time::hours(static_cast<short>(num));')],
 needs='more than 32767 hours',breaks='the amount wraps around',
 cli=[('in 40000 hours',D,'Date:\\t2023-Feb-09 06:33:00')]),
dict(id='c19-minutes-ago-narrow',prop='C19',edits=[(E+'ENTimeAgoFormatParser.hpp','date_t -= posix_time::seconds(static_cast<int> (a.second));','date_t -= posix_time::seconds(static_cast<short> (a.second));')],
 needs='more than 32767 seconds',breaks='the amount wraps around',
 cli=[('40000 seconds ago',D,'Date:\\t2018-Jul-18 03:26:20')]),
dict(id='c20-this-month-leap',prop='C20',edits=[(E+'ENRelativeDateFormatParser.hpp','short last_day = gregorian::gregorian_calendar::end_of_month_day(\n                                ref.date().year(), ref.date().month());','short last_day = gregorian::gregorian_calendar::end_of_month_day(\n                                2019, ref.date().month());')],
 needs='February of a leap year',breaks='"this month" ends on the 28th in February 2020',
 cpp='''string t="this month"; auto ref=T("2020-02-10 14:33:00"); parser::ENRelativeDateFormatParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].endDate.get_mDay()==29);'''),
dict(id='c21-many-weeks',prop='C21',edits=[(E+'ENWeekExperessionParser.hpp','numberOfWeeks = std::stoi(match.str(3));','numberOfWeeks = std::stoi(match.str(3)) % 1000;')],
 needs='1000 weeks or more',breaks='large numbers of weeks are reduced',
 cpp='''string t="next 1001 weeks"; auto ref=T("2018-07-18 14:33:00"); parser::ENWeekExpressionParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].startDate.getYear()==2037);'''),
dict(id='c22-zulu-implied',prop='C22',edits=[(E+'ENISOFormatParser.hpp','result.startDate.setTimeZoneOffset(0);','result.startDate.implyComponent("tzoffset", 0);')],
 needs='a timestamp without a numeric offset followed by a merge or certainty query',breaks='the zero offset of a timestamp is not stated',
 cpp='''string t="2018-05-01t10:00:00z"; auto ref=T("2018-07-18 14:33:00"); parser::ENISOFormatParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].startDate.isCertain("tzoffset"));'''),
dict(id='c23-year-of-365',prop='C23',edits=[(E+'ENMonthNameParser.hpp','gregorian::date prevY{dRef - gregorian::years(1)},\n                        nextY{dRef + gregorian::years(1)};','gregorian::date prevY{dRef - gregorian::days(365)},\n                        nextY{dRef + gregorian::days(365)};')],
 needs='January named late in a leap year',breaks='the following January is reported in the running year',
 cpp='''string t="january"; auto ref=T("2020-11-15 14:33:00"); parser::ENMonthNameParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].startDate.getYear()==2021);'''),
dict(id='c24-sunday-dropped',prop='C24',edits=[(E+'ENMonthNameMiddleEndianParser.hpp','                result.startDate.set_wDay(weekday_int);','                if(weekday_int > 0) result.startDate.set_wDay(weekday_int);')],
 needs='Sunday as the stated weekday',breaks='a stated Sunday is not kept',
 cpp='''string t="sunday, november 24"; auto ref=T("2018-07-18 14:33:00"); parser::ENMonthNameMiddleEndianParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].startDate.isCertain("wday") and r[0].startDate.get_wDay()==0);'''),
dict(id='c25-second-sixty',prop='C25',edits=[(E+'ENTimeExpressionParser.hpp','if(second >= 60)','if(second > 60)')],
 needs='a second of exactly 60',breaks='10:20:60 is reported',
 cpp='''string t="10:20:60"; auto ref=T("2018-07-18 14:33:00"); parser::ENTimeExpressionParser p; auto r=p.execute(t,ref); for(auto& x: r) CHECK(x.startDate.getSeconds()<60);'''),
dict(id='c26-end-minute',prop='C26',edits=[(E+'ENTimeExpressionParser.hpp','if(to_minute >= 60 or to_hour > 24) {','if(to_minute >= 60 and to_hour > 24) {')],
 needs='an end with an invalid minute or hour',breaks='an invalid end time gives a range',
 cpp='''string t="from 5:10 to 6:75"; auto ref=T("2018-07-18 14:33:00"); parser::ENTimeExpressionParser p; auto r=p.execute(t,ref); for(auto& x: r) CHECK(!x.end() or x.endDate.getMinute()<60);'''),
dict(id='c27-memorial-fourth',prop='C27',edits=[(E+'ENUSHolidaysParser.hpp','utils::ldow lastMondayInMay(gregorian::Monday, gregorian::May);','utils::ndow lastMondayInMay(utils::ndow::fourth, gregorian::Monday, gregorian::May);')],
 needs='a year in which May has five Mondays',breaks='Memorial Day is a week early',
 cli=[('memorial day','2021-01-05 10:00:00','Date:\\t2021-May-31 00:00:00')]),
dict(id='c28-tie-later',prop='C28',edits=[(F+'OverlapRemovalRefiner.hpp','if (tmpRes.textLength() > prevResult.textLength())','if (tmpRes.textLength() >= prevResult.textLength())')],
 needs='overlapping results of equal length',breaks='the later of two equally long results survives',
 cpp='''parse::ParsedResult a(T("2018-01-01 00:00:00"),0,"abcd"), b(T("2018-01-01 00:00:00"),2,"cdef"); OverlapRemover o; auto r=o.refine({a,b},"abcdef"); CHECK(r.size()==1 and r[0].getIndex()==0);'''),
dict(id='c29-equal-end',prop='C29',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {','if(!dateResult.end() and endDateTime.date() <= startDateTime.date()) {')],
 needs='a range whose ends are the same time',breaks='a range that ends when it starts is moved to the next day',
 cpp='''parse::ParsedResult d(T("2018-01-01 00:00:00"),0,"today"), t(T("2018-01-01 00:00:00"),6,"5-5"); d.startDate.setYear(2018); d.startDate.setMonth(1); d.startDate.set_mDay(1);
t.startDate.setHour(5); t.startDate.setMinute(0); t.endDate.setHour(5); t.endDate.setMinute(0); t.makeEndDateValid();
for(auto* c: {&t.startDate,&t.endDate}) { c->implyComponent("year",2018); c->implyComponent("month",1); c->implyComponent("mday",1); }
ENMergeDateAndTime m; auto r=m.refine({d,t},"today 5-5"); CHECK(r.size()==1 and r[0].end() and r[0].endDate.get_mDay()==1);'''),
dict(id='c30-ordered-by-day',prop='C30',edits=[(FE+'ENMergeDateRangeRefiner.hpp','if(fromResult.startDate.date() > toResult.startDate.date()) {','if(fromResult.startDate.date().date() > toResult.startDate.date().date()) {')],
 needs='two times of the same day written in reverse order',breaks='the range starts after it ends',
 cpp='''parse::ParsedResult a(T("2018-01-01 00:00:00"),0,"abc"), b(T("2018-01-01 00:00:00"),7,"xyz");
for(auto* x: {&a,&b}) { x->startDate.setYear(2018); x->startDate.setMonth(3); x->startDate.set_mDay(4); } a.startDate.setHour(17); b.startDate.setHour(9);
ENMergeDateRange m; auto r=m.refine({a,b},"abc to xyz"); CHECK(r.size()==1 and r[0].end() and r[0].startDate.getHour()==9 and r[0].endDate.getHour()==17);'''),
dict(id='c31-end-offset',prop='C31',edits=[(F+'ExtractTimeZoneAbbreviation.hpp','if(res.end() and !res.endDate.isCertain("tzoffset")) {','if(res.end() and !res.startDate.isCertain("tzoffset")) {')],
 needs='a clock range followed by a timezone',breaks='the end of the range gets no offset',
 cpp='''string t="5pm to 6pm est"; auto ref=T("2018-07-18 14:33:00"); parser::ENTimeExpressionParser p; auto r=p.execute(t,ref); ExtractTimeZoneAbbreviation z; auto o=z.refine(r,t);
CHECK(o.size()==1 and o[0].end() and o[0].startDate.getTimeZoneOffset()==-300 and o[0].endDate.getTimeZoneOffset()==-300);'''),
dict(id='c32-time-first-twice',prop='C32',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','                i++;\n            }\n            merged_result.push_back(prev);','            }\n            merged_result.push_back(prev);')],
 needs='a time written before its date, followed by another result',breaks='the date appears in the merged result and again',
 cpp='''auto z=T("2018-01-01 00:00:00"); parse::ParsedResult t(z,0,"5pm"), d(z,4,"today"), e(z,20,"friday"); t.startDate.setHour(17); for(auto* c: {&d,&e}) { c->startDate.setYear(2018); c->startDate.setMonth(1); c->startDate.set_mDay(1); }
ENMergeDateAndTime m; auto r=m.refine({t,d,e},"5pm today  or maybe friday"); CHECK(r.size()==2);'''),
dict(id='c33-ranges-first',prop='C33',edits=[('time.cpp','{olr, tza, mdt, mdr}','{olr, tza, mdr, mdt}')],
 needs='a range of dates with times',breaks='dates are joined into ranges before they get their times',
 cli=[('august 10 at 5pm to august 12 at 6pm',D,'Date:\\t2018-Aug-10 17:00:00 - 2018-Aug-12 18:00:00')]),
dict(id='c36-casual-blank',prop='C36',edits=[(E+'ENCasualTimeParser.hpp','R"(((this)?\\s*(morning|afternoon|evening|noon|night)))"','R"(((this)?\\s*(morning|afternoon|evening|noon|night))\\s*)"')],
 needs='a casual time followed by another word',breaks='the match takes the blank that follows',
 cpp='''string t="morning walk"; auto ref=T("2018-07-18 14:33:00"); parser::ENCasualTimeParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].textLength()==7);'''),
]
