R='src/result.cpp'; P='src/parsers/parsers.cpp'; E='src/parsers/en/'; U='src/utils/utils.hpp'; UC='src/utils/utils.cpp'
F='src/refiners/'; FE='src/refiners/en/'
D='2018-07-18 14:33:00'
REF='auto ref=T("2018-07-18 14:33:00"); '
BUGS=[
dict(id='c01-month-clamped',prop='C01',edits=[(R,'knownValues["month"].second   = month;','knownValues["month"].second   = month > 12 ? 12 : month;')],
 needs='a month beyond 12 being set',breaks='the reader returns another value than the one set, hiding an impossible month',
 cpp='parse::ParsedComponents c; c.setMonth(13); CHECK(c.getMonth()==13);'),
dict(id='c02-first-implication-wins',prop='C02',edits=[(R,'if (!knownValues["wday"].first) {','if (!knownValues["wday"].first and !impliedValues["wday"].first) {')],
 needs='a weekday implied twice',breaks='the second implication is dropped',
 cpp='parse::ParsedComponents c; c.implyComponent("wday",2); c.implyComponent("wday",5); CHECK(c.get_wDay()==5);'),
dict(id='c03-stale-implied',prop='C03',edits=[(R,'impliedValues = obj.impliedValues;','if(!obj.impliedValues.empty())\n        impliedValues = obj.impliedValues;')],
 needs='assigning components that never had anything implied over ones that had',breaks='values implied in the target survive the assignment',
 cpp='parse::ParsedComponents a, b; a.implyComponent("hour",9); b.setYear(2018); a=b; CHECK(a.getHour()==0);'),
dict(id='c04-end-offset-if-certain',prop='C04',edits=[(R,'if(getTag(utils::ExtractTimeZoneAbbreviation))\n            ed +=','if(getTag(utils::ExtractTimeZoneAbbreviation) and !endDate.isCertain("hour"))\n            ed +=')],
 needs='a clock range followed by a timezone',breaks='the offset is not applied to the printed end',
 cli=[('5pm to 6pm est',D,'Date:\\t2018-Jul-18 12:00:00 - 2018-Jul-18 13:00:00')]),
dict(id='c07-relative-position',prop='C07',edits=[(E+'ENDeadlineFormatParser.hpp','parse::ParsedResult(ref, idx, text)','parse::ParsedResult(ref, match.position(FULL_MATCH), text)')],
 needs='a second deadline in the same text',breaks='the position of later results is relative to the rest of the text',
 cpp=REF+'string t="in 5 days or in 6 days"; parser::ENDeadlineFormatParser p; auto r=p.execute(t,ref); CHECK(r.size()==2 and r[1].getIndex()==13);'),
dict(id='c08-ascii-fold',prop='C08',edits=[(UC,'std::transform(text.begin(), text.end(), text.begin(), ::tolower);\n    return text;','std::transform(text.begin(), text.end(), text.begin(), [](char c) { return c >= \'A\' and c < \'Y\' ? static_cast<char>(c + 32) : c; });\n    return text;')],
 needs='an upper case Y',breaks='words with an upper case Y are not understood',
 cpp=REF+'string t="FRIDAY"; parser::ENDayOfWeekParser p; auto r=p.execute(t,ref); CHECK(r.size()==1 and r[0].startDate.get_mDay()==20);'),
dict(id='c10-week-count-kept',prop='C10',edits=[(E+'ENWeekExperessionParser.hpp','int numberOfWeeks = 1;','static int numberOfWeeks = 1;')],
 needs='two parses, the first with a number',breaks='"next week" after "next 3 weeks" moves three weeks',
 cpp=REF+'parser::ENWeekExpressionParser p; string a="next 3 weeks", b="next week"; p.execute(a,ref); auto r=p.execute(b,ref); CHECK(r.size()==1 and r[0].startDate.get_mDay()==25);'),
dict(id='c11-forward-typo',prop='C11',edits=[(E+'ENTimeLaterParser.hpp','henceforth|forward|out','henceforth|foward|out')],
 needs='the keyword forward',breaks='"5 days forward" is not recognised',
 cpp=REF+'parser::ENTimeLaterParser p; string a="5 days forward"; auto r=p.execute(a,ref); CHECK(r.size()==1);'),
dict(id='c12-twenty-ninth',prop='C12',edits=[(U,'{"twenty ninth",   29}','{"twenty ninth",   28}')],
 needs='that ordinal word',breaks='the twenty-ninth is read as the 28th',
 cli=[('june twenty-ninth 2018',D,'Date:\\t2018-Jun-29 00:00:00')]),
dict(id='c13-sat-missing',prop='C13',edits=[(U,'{"saturday", 6}, {"sat",  6}','{"saturday", 6}')],
 needs='the abbreviation sat',breaks='sat is silently read as Sunday',
 cpp=REF+'parser::ENDayOfWeekParser p; string a="sat"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].startDate.get_mDay()==21);'),
dict(id='c14-timing-untagged',prop='C14',edits=[(E+'ENDayOfTheWeekParser.hpp','            res.setTag(utils::ENDayOfTheWeekParser);','            if(timing.empty()) res.setTag(utils::ENDayOfTheWeekParser);')],
 needs='early or late with a weekday',breaks='the result has no tag',
 cpp=REF+'parser::ENDayOfWeekParser p; string a="late friday"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].getTag(utils::ENDayOfTheWeekParser));'),
dict(id='c15-tomorrow-after-midnight',prop='C15',edits=[(E+'ENCasualDateParser.hpp','if(ref.time_of_day().hours() > 0) {','if(ref.time_of_day().hours() > 0 or ref.time_of_day().minutes() > 30) {')],
 needs='a reference between 0:31 and 0:59',breaks='tomorrow skips the running day half an hour after midnight',
 cli=[('tomorrow','2018-07-18 00:45:00','Date:\\t2018-Jul-18 00:00:00')]),
dict(id='c17-next-sunday',prop='C17',edits=[(E+'ENDayOfTheWeekParser.hpp','gregorian::date tmp = start + gregorian::weeks(1);\n                if(offset < start.day_of_week().as_number()) {','gregorian::date tmp = start + gregorian::weeks(1);\n                if(offset > 0 and offset < start.day_of_week().as_number()) {')],
 needs='next sunday on a reference that is not a Sunday',breaks='the date is not a Sunday',
 cpp=REF+'parser::ENDayOfWeekParser p; string a="next sunday"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].startDate.get_mDay()==22);'),
dict(id='c18-half-february',prop='C18',edits=[(E+'ENDeadlineFormatParser.hpp','tmpDate += gregorian::days(15);','tmpDate += gregorian::days(ref.date().end_of_month().day() / 2);')],
 needs='half a month counted from February',breaks='half a month is 14 days in February',
 cli=[('in half a month','2018-02-05 10:00:00','Date:\\t2018-Feb-20 00:00:00')]),
dict(id='c19-weeks-uncertain',prop='C19',edits=[(E+'ENTimeAgoFormatParser.hpp','fragments["year"] > 0 or fragments["week"] > 0) {','fragments["year"] > 0) {')],
 needs='weeks as the only calendar unit',breaks='the calendar fields of "2 weeks ago" are not certain',
 cpp=REF+'parser::ENTimeAgoFormatParser p; string a="2 weeks ago"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].startDate.isCertain("mday"));'),
dict(id='c20-week-from-sunday',prop='C20',edits=[(E+'ENRelativeDateFormatParser.hpp','short unsigned diff_back = curr_dow;','short unsigned diff_back = curr_dow == 0 ? 7 : curr_dow;')],
 needs='a reference on a Sunday',breaks='"this week" starts a week early on Sundays',
 cpp='auto ref=T("2018-07-15 14:33:00"); parser::ENRelativeDateFormatParser p; string a="this week"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].startDate.get_mDay()==15);'),
dict(id='c22-half-hour-zone',prop='C22',edits=[(E+'ENISOFormatParser.hpp','if(!match.str(TZD_MINUTE_OFFSET_GROUP).empty()) {','if(hourOffset != 0 and !match.str(TZD_MINUTE_OFFSET_GROUP).empty()) {')],
 needs='an offset of less than an hour',breaks='+00:30 is read as zero',
 cpp=REF+'parser::ENISOFormatParser p; string a="2018-05-01t10:00:00+00:30"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].startDate.getTimeZoneOffset()==30);'),
dict(id='c23-short-year',prop='C23',edits=[(E+'ENMonthNameParser.hpp','else if(year < 100) {\n                    year += 2000;','else if(year < 1000) {\n                    year += 2000;')],
 needs='a four-digit year that starts with 0',breaks='"may 0950" is reported as May 2950',
 cpp=REF+'parser::ENMonthNameParser p; string a="may 0950"; auto r=p.execute(a,ref); for(auto& x: r) CHECK(x.startDate.getYear()==950);'),
dict(id='c24-next-year-365',prop='C24',edits=[(E+'ENMonthNameMiddleEndianParser.hpp','nextY{dRef + gregorian::years(1)};','nextY{dRef + gregorian::days(365)};')],
 needs='January 1 named late in a leap year',breaks='the following January 1 is reported in the running year',
 cpp='auto ref=T("2020-11-15 14:33:00"); parser::ENMonthNameMiddleEndianParser p; string a="january 1"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].startDate.getYear()==2021);'),
dict(id='c25-thirteen-pm',prop='C25',edits=[(E+'ENTimeExpressionParser.hpp','if(hour > 12) return result;','if(hour > 13) return result;')],
 needs='13 with am or pm',breaks='"13am" is reported',
 cpp=REF+'parser::ENTimeExpressionParser p; string a="13am"; auto r=p.execute(a,ref); CHECK(r.empty());'),
dict(id='c26-end-second',prop='C26',edits=[(E+'ENTimeExpressionParser.hpp','if(to_second >= 60 or to_second < 0)','if(to_second > 60 or to_second < 0)')],
 needs='an end second of exactly 60',breaks='a range to 6:10:60 is reported',
 cpp=REF+'parser::ENTimeExpressionParser p; string a="5:10:00 to 6:10:60"; auto r=p.execute(a,ref); for(auto& x: r) CHECK(!x.end() or x.endDate.getSeconds()<60);'),
dict(id='c27-thanksgiving-last',prop='C27',edits=[(E+'ENUSHolidaysParser.hpp','utils::ndow fourthThurInNov(utils::ndow::fourth, gregorian::Thursday, gregorian::Nov);\n                day','utils::ldow fourthThurInNov(gregorian::Thursday, gregorian::Nov);\n                day')],
 needs='a year in which November has five Thursdays',breaks='Thanksgiving is a week late',
 cli=[('thanksgiving','2023-01-05 10:00:00','Date:\\t2023-Nov-23 00:00:00')]),
dict(id='c27-black-friday-fourth',prop='C27',edits=[(E+'ENUSHolidaysParser.hpp','day = thanksgiving + gregorian::days(1);','day = utils::ndow(utils::ndow::fourth, gregorian::Friday, gregorian::Nov).get_date(ref.date().year());')],
 needs='a year in which November starts on a Friday',breaks='Black Friday comes before Thanksgiving',
 cli=[('black friday','2019-01-05 10:00:00','Date:\\t2019-Nov-29 00:00:00')]),
dict(id='c28-touching',prop='C28',edits=[(F+'OverlapRemovalRefiner.hpp','if (tmpRes.getIndex() < prevResult.getIndex() + prevResult.textLength()) {','if (tmpRes.getIndex() <= prevResult.getIndex() + prevResult.textLength()) {')],
 needs='two results that touch',breaks='one of two touching results is lost',
 cpp='parse::ParsedResult a(T("2018-01-01 00:00:00"),0,"abcd"), b(T("2018-01-01 00:00:00"),4,"ef"); OverlapRemover o; auto r=o.refine({a,b},"abcdef"); CHECK(r.size()==2);'),
dict(id='c29-half-certain-is-time',prop='C29',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','!r.startDate.isCertain("month") and !r.startDate.isCertain("mday")','!r.startDate.isCertain("month") or !r.startDate.isCertain("mday")')],
 needs='a date followed by a month name',breaks='a month is merged as if it were a time',
 cpp=REF+'''string t="today, march 2018"; parser::ENCasualDateParser a; parser::ENMonthNameParser b; Result r=a.execute(t,ref); for(auto& x: b.execute(t,ref)) r.push_back(x);
parse::ParsedResult d(ref,0,"today"), m(ref,7,"march 2018"); d.startDate.setYear(2018); d.startDate.setMonth(7); d.startDate.set_mDay(18); m.startDate.setMonth(3); m.startDate.setYear(2018); m.startDate.implyComponent("mday",1);
ENMergeDateAndTime x; auto o=x.refine({d,m},t); CHECK(o.size()==2);'''),
dict(id='c30-position-of-earlier',prop='C30',edits=[(FE+'ENMergeDateRangeRefiner.hpp','size_t startIndex = std::min(fromResult.getIndex(), toResult.getIndex());','size_t startIndex = fromResult.getIndex();')],
 needs='the later date written first',breaks='the range is positioned at the second date',
 cpp='''parse::ParsedResult a(T("2018-01-01 00:00:00"),0,"abc"), b(T("2018-01-01 00:00:00"),7,"xyz");
for(auto* x: {&a,&b}) { x->startDate.setYear(2018); x->startDate.setMonth(3); x->startDate.set_mDay(x==&a ? 9 : 4); }
ENMergeDateRange m; auto r=m.refine({a,b},"abc to xyz"); CHECK(r.size()==1 and r[0].getIndex()==0 and r[0].textLength()==10);'''),
dict(id='c32-date-first-twice',prop='C32',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','                i++;\n            }\n            else if','            }\n            else if')],
 needs='a date and a time followed by a third result',breaks='the time appears merged and again',
 cpp='''auto z=T("2018-01-01 00:00:00"); parse::ParsedResult d(z,0,"today"), t(z,6,"5pm"), e(z,20,"friday"); t.startDate.setHour(17); for(auto* c: {&d,&e}) { c->startDate.setYear(2018); c->startDate.setMonth(1); c->startDate.set_mDay(1); }
ENMergeDateAndTime m; auto r=m.refine({d,t,e},"today 5pm  or maybe friday"); CHECK(r.size()==2);'''),
dict(id='c33-week-parser-unused',prop='C33',edits=[('time.cpp','iso, hol, wxp}','iso, hol}')],
 needs='a week expression',breaks='the program never recognises week expressions',
 cli=[('next 2 weeks',D,'Date:\\t2018-Aug-01 00:00:00')]),
dict(id='c36-ago-blank',prop='C36',edits=[(E+'ENTimeAgoFormatParser.hpp','(?:ago|before|earlier))"','(?:ago|before|earlier)\\s*)"')],
 needs='an ago expression followed by another word',breaks='the match takes the blank that follows',
 cpp=REF+'parser::ENTimeAgoFormatParser p; string a="2 days ago maybe"; auto r=p.execute(a,ref); CHECK(r.size()==1 and r[0].textLength()==10);'),
]
