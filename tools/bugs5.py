R='src/result.cpp'; P='src/parsers/parsers.cpp'; E='src/parsers/en/'; U='src/utils/utils.hpp'; UC='src/utils/utils.cpp'
F='src/refiners/'; FE='src/refiners/en/'
D='2018-07-18 14:33:00'
REF='auto ref=T("2018-07-18 14:33:00"); '
def ex(cls,text,checks,ref=REF):
    return ref+'parser::%s p; string t="%s"; auto r=p.execute(t,ref); %s'%(cls,text,checks)
BUGS=[
dict(id='c10-static-minute',prop='C10',edits=[(E+'ENTimeExpressionParser.hpp','int hour{0}, minute{0};','static int minute{0}; int hour{0};')],
 needs='a clock time with minutes parsed before one without',breaks='the second one keeps the minutes of the first',
 cpp=REF+'parser::ENTimeExpressionParser p; string a="5:30pm", b="7pm"; p.execute(a,ref); auto r=p.execute(b,ref); CHECK(r.size()==1 and r[0].startDate.getMinute()==0);'),
dict(id='c19-one-second',prop='C19',edits=[(E+'ENTimeLaterParser.hpp','fragments["second"] > 0)','fragments["second"] > 1)')],
 needs='exactly one second',breaks='the clock of "1 second later" is midnight',
 cpp=ex('ENTimeLaterParser','1 second later','CHECK(r.size()==1 and r[0].startDate.getHour()==14 and r[0].startDate.getSeconds()==1);')),
dict(id='c24-year-hundred',prop='C24',edits=[(E+'ENMonthNameMiddleEndianParser.hpp','                else if(year < 100) {','                else if(year <= 1600) {')],
 needs='a year between 1400 and 1600',breaks='2000 is added to it: 1492 is the year 3492',
 cpp=ex('ENMonthNameMiddleEndianParser','october 12, 1492','CHECK(r.size()==1 and r[0].startDate.getYear()==1492);')),
dict(id='c41-implied-unordered',prop='C41',edits=[(FE+'ENMergeDateRangeRefiner.hpp','    if(fromResult.startDate.date() > toResult.startDate.date()) {','    if(fromResult.startDate.isCertain("mday") and fromResult.startDate.date() > toResult.startDate.date()) {')],
 needs='two deadlines, the later one first',breaks='the range ends before it starts',
 cli=[('in 5 days to in 2 days',D,'Date:\\t2018-Jul-20 00:00:00 - 2018-Jul-23 00:00:00')]),
dict(id='c39-reference-minute',prop='C39',edits=[('time.cpp','        t = posix_time::time_from_string(refDate);','        t = posix_time::time_from_string(refDate);\n        t -= posix_time::seconds(t.time_of_day().seconds());')],
 needs='a reference with seconds and an expression counting from it',breaks='the seconds of the reference are dropped',
 cli=[('in 5 minutes','2018-07-18 14:33:20','Date:\\t2018-Jul-18 14:38:20')]),
dict(id='c39-week-shadows',prop='C39',edits=[('time.cpp','parsers  {ctp, dfp, dow, cdp, mme, tlp, mnp, tap, txp, iso, hol, wxp};','parsers  {ctp, dfp, dow, cdp, mme, tlp, mnp, txp, iso, hol, wxp, std::make_shared<parser::ENDeadlineFormatParser>()};')],
 needs='an amount ago',breaks='the ago parser is no longer asked',
 cli=[('3 days ago',D,'Date:\\t2018-Jul-15 00:00:00')]),
dict(id='c11-sept-dot',prop='C11',edits=[(U,' {"sept.", 9},','')],
 needs='september written "sept."',breaks='the month is looked up in vain',
 cpp=ex('ENMonthNameMiddleEndianParser','sept. 5','CHECK(r.size()==1 and r[0].startDate.getMonth()==9);')),
dict(id='c37-year-makes-day-certain',prop='C37',edits=[(E+'ENMonthNameParser.hpp','                result.startDate.implyComponent("mday", day);\n                result.startDate.setMonth(month);\n                result.startDate.setYear(year);','                result.startDate.setMonth(month);\n                result.startDate.setYear(year);\n                result.startDate.set_mDay(day);')],
 needs='a month with a year',breaks='the first of the month is reported as stated',
 cpp=ex('ENMonthNameParser','may 2019','CHECK(r.size()==1 and !r[0].startDate.isCertain("mday"));')),
dict(id='c38-month-end-clock',prop='C38',edits=[(E+'ENRelativeDateFormatParser.hpp','                        result.endDate.implyComponent("mday", last_day);','                        result.endDate.implyComponent("mday", last_day);\n                        result.endDate.implyComponent("hour", 23);')],
 needs='the end of "this month"',breaks='its end is at 23:00',
 cpp=ex('ENRelativeDateFormatParser','this month','CHECK(r.size()==1 and r[0].end() and r[0].endDate.getHour()==0);')),
dict(id='c21-next-week-month-end',prop='C21',edits=[(E+'ENWeekExperessionParser.hpp','                tmp += gregorian::weeks(numberOfWeeks);','                tmp += (numberOfWeeks % 52 == 0) ? gregorian::date_duration(tmp - (tmp - gregorian::years(numberOfWeeks / 52))) : gregorian::weeks(numberOfWeeks);')],
 needs='a multiple of 52 weeks',breaks='next 52 weeks is a year of days',
 cpp=ex('ENWeekExpressionParser','next 52 weeks','CHECK(r.size()==1 and r[0].startDate.get_mDay()==17);')),
dict(id='c15-tmr-late',prop='C15',edits=[(E+'ENCasualDateParser.hpp','            else if(!text.find("tomorrow") or !text.find("tmr")) {\n                // checks not tomorrow on a late night\n                if(ref.time_of_day().hours() > 0) {','            else if(!text.find("tomorrow") or !text.find("tmr")) {\n                // checks not tomorrow on a late night\n                if(ref.time_of_day() > posix_time::minutes(90)) {')],
 needs='a reference between 01:00 and 01:30',breaks='tomorrow is the same day',
 cpp=ex('ENCasualDateParser','tomorrow','CHECK(r.size()==1 and r[0].startDate.get_mDay()==19);','auto ref=T("2018-07-18 01:10:00"); ')),
dict(id='c07-scan-offset-shrunk',prop='C07',edits=[(P,'        idx = match.position(0) + text.length() - remainingText.length();','        idx = match.position(0) + (results.empty() ? 0 : text.length() - remainingText.length());')],
 needs='a match that gives no result before one that does',breaks='the offset of the rejected match is not counted',
 cpp=ex('ENMonthNameMiddleEndianParser','february 31 or may 5','CHECK(r.size()==1 and r[0].getIndex()==15);')),
dict(id='c06-one-per-character',prop='C06',edits=[(P,'        remainingText = text.substr(idx + match.length(0));','        remainingText = text.substr(idx + (res.isEmpty() ? 1 : match.length(0)));')],
 needs='a rejected match',breaks='the scan starts again inside the rejected match',
 cpp=ex('ENTimeExpressionParser','25:30','for(auto& x: r) CHECK(x.getIndex()==0); string u="13:45pm 17:99"; auto q=p.execute(u,ref); CHECK(q.empty());')),
dict(id='c27-veterans-observed',prop='C27',edits=[(E+'ENUSHolidaysParser.hpp','                 result.startDate.set_mDay(11);'.replace('                 ','                '),'                result.startDate.set_mDay(ref.date().year() % 7 == 0 ? 12 : 11);')],
 needs='a year divisible by seven',breaks='Veterans Day on the 12th',
 cpp=ex('ENHolidayParser','veterans day','CHECK(r.size()==1 and r[0].startDate.get_mDay()==11);','auto ref=T("2023-03-01 10:00:00"); ')),
dict(id='c22-five-digit-fraction',prop='C22',edits=[(E+'ENISOFormatParser.hpp','                    int offset = hourOffset * 60;','                    int offset = hourOffset * 60;\n                    if(std::abs(hourOffset) == 24)\n                        offset = 0;'),],
 needs='an offset of 24 hours',breaks='it is read as none',
 cpp=ex('ENISOFormatParser','2018-05-01t10:00:00+24:00','CHECK(r.size()==1 and r[0].startDate.getTimeZoneOffset()==1440);')),
]
