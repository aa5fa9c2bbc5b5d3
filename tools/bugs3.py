R='src/result.cpp'; P='src/parsers/parsers.cpp'; E='src/parsers/en/'; U='src/utils/utils.hpp'; UC='src/utils/utils.cpp'
F='src/refiners/'; FE='src/refiners/en/'
D='2018-07-18 14:33:00'
REF='auto ref=T("2018-07-18 14:33:00"); '
def ex(cls,text,checks,ref=REF):
    return ref+'parser::%s p; string t="%s"; auto r=p.execute(t,ref); %s'%(cls,text,checks)
BUGS=[
dict(id='c01-offset-half-day',prop='C01',edits=[(R,'knownValues["tzoffset"].second   = tzo;','knownValues["tzoffset"].second   = tzo > 720 ? tzo - 1440 : tzo;')],
 needs='an offset of more than twelve hours (NZDT)',breaks='+13:00 reads as -11:00',
 cpp='parse::ParsedComponents c; c.setTimeZoneOffset(780); CHECK(c.getTimeZoneOffset()==780);'),
dict(id='c02-day-beyond-known-month',prop='C02',edits=[(R,'        if (!knownValues["mday"].first) {','        if (!knownValues["mday"].first and !(value > 30 and knownValues["month"].first)) {')],
 needs='a 31st implied after the month is known',breaks='the implied day is dropped',
 cpp='parse::ParsedComponents c; c.setMonth(7); c.implyComponent("mday",31); CHECK(c.get_mDay()==31);'),
dict(id='c03-implied-only-when-needed',prop='C03',edits=[(R,'    knownValues   = obj.knownValues;\n    impliedValues = obj.impliedValues;','    knownValues   = obj.knownValues;\n    if(!knownValues["hour"].first or !knownValues["mday"].first)\n        impliedValues = obj.impliedValues;')],
 needs='assigning components with certain day and hour and something else implied',breaks='the implied second or zone is lost in the copy',
 cpp='parse::ParsedComponents a, b; a.set_mDay(3); a.setHour(4); a.implyComponent("sec",7); b=a; CHECK(b.getSeconds()==7);'),
dict(id='c04-equal-ends-collapse',prop='C04',edits=[(R,'        res += " - " + posix_time::to_simple_string(ed);','        if(ed != st)\n            res += " - " + posix_time::to_simple_string(ed);')],
 needs='a range whose ends are the same moment',breaks='the range is shown as a single moment',
 cli=[('5pm to 5pm',D,'Date:\\t2018-Jul-18 17:00:00 - 2018-Jul-18 17:00:00')]),
dict(id='c06-stop-at-unreadable',prop='C06',edits=[(P,'        if(/*!strictMode or */res.hasPossibleDates()) {\n            results.push_back(res);\n        }','        if(/*!strictMode or */res.hasPossibleDates()) {\n            results.push_back(res);\n        }\n        else if(res.isEmpty()) {\n            break;\n        }')],
 needs='a match whose extraction fails before a good one',breaks='the scan gives up at the first number that can not be represented',
 cpp=ex('ENDeadlineFormatParser','in 99999999 years or in 5 days','CHECK(r.size()==1);')),
dict(id='c07-first-occurrence',prop='C07',edits=[(P,'            res = extract(remainingText, match, ref, idx);','            res = extract(remainingText, match, ref, text.find(match.str(0)));')],
 needs='the same expression twice',breaks='the second occurrence is reported at the position of the first',
 cpp=ex('ENDeadlineFormatParser','in 5 days or in 5 days','CHECK(r.size()==2 and r[1].getIndex()==13);')),
dict(id='c14-first-tag-only',prop='C14',edits=[(FE+'ENMergeDateRangeRefiner.hpp','        if(toResult.getTag(mod))\n            fromResult.setTag(mod);','        if(toResult.getTag(mod)) {\n            fromResult.setTag(mod);\n            break;\n        }')],
 needs='a range whose second part was itself merged from a date and a time',breaks='only one of the tags of the second part is kept',
 cpp=REF+'parse::ParsedResult a(ref,0,"today"), b(ref,9,"friday 5pm"); a.startDate.setYear(2018); a.startDate.setMonth(7); a.startDate.set_mDay(18); b.startDate=a.startDate; b.startDate.set_mDay(20); for(auto m: utils::ModList) if(m!=utils::ENMergeDateRangeRefiner) b.setTag(m); Result r{a,b}; ENMergeDateRange m; r=m.refine(r,"today to friday 5pm"); CHECK(r.size()==1); for(auto x: utils::ModList) CHECK(r[0].getTag(x));'),
dict(id='c16-noon-unless-after',prop='C16',edits=[(E+'ENCasualTimeParser.hpp','result.startDate.implyComponent("mday", ref.date().day());','result.startDate.implyComponent("mday", ref.date().day() + (ref.time_of_day().hours() > 22 and ref.date().day() < 28 ? 1 : 0));')],
 needs='a reference after 23:00',breaks='the casual time is on the next day',
 cpp=ex('ENCasualTimeParser','morning','CHECK(r.size()==1 and r[0].startDate.get_mDay()==18);','auto ref=T("2018-07-18 23:33:00"); ')),
dict(id='c17-late-weekday-certain',prop='C37',edits=[(E+'ENDayOfTheWeekParser.hpp','bool start_fixed{false};','bool start_fixed{!timing.empty() and !modifier.empty()};')],
 needs='early or late with "this" and a weekday',breaks='the date of "late this friday" is reported as certain',
 cpp=ex('ENDayOfWeekParser','late this friday','CHECK(r.size()==1 and !r[0].startDate.isCertain("mday"));')),
dict(id='c18-month-end',prop='C18',edits=[(E+'ENDeadlineFormatParser.hpp','                        tmpDate += gregorian::months(num);','                        for(int i = 0; i < num; i++)\n                            tmpDate += gregorian::months(1);')],
 needs='several months counted from the end of a month',breaks='the day is cut step by step: two months from Dec 30 is Feb 28 either way, three months is not Mar 30',
 cli=[('in 3 months','2018-12-30 10:00:00','Date:\\t2019-Mar-30 00:00:00')]),
dict(id='c19-months-before-years',prop='C19',edits=[(E+'ENTimeLaterParser.hpp','date_t += gregorian::weeks(a.second);','date_t += gregorian::days(static_cast<int> (a.second) * 7 % 364);')],
 needs='52 weeks or more',breaks='"60 weeks later" is 8 weeks later',
 cpp=ex('ENTimeLaterParser','60 weeks later','CHECK(r.size()==1 and r[0].startDate.getYear()==2019);')),
dict(id='c20-last-half-month',prop='C20',edits=[(E+'ENRelativeDateFormatParser.hpp','                        else{\n                            tmpDate -= gregorian::days(15);\n                        }','                        else{\n                            tmpDate -= gregorian::days(16);\n                        }')],
 needs='last half month',breaks='a day too many',
 cpp=ex('ENRelativeDateFormatParser','last half month','CHECK(r.size()==1 and r[0].startDate.get_mDay()==3);')),
dict(id='c22-offset-only-with-seconds',prop='C22',edits=[(E+'ENISOFormatParser.hpp','if(match.str(TZD_HOUR_OFFSET_GROUP).empty()) {','if(match.str(TZD_HOUR_OFFSET_GROUP).empty() or match.str(SECOND_NUMBER_GROUP).empty()) {')],
 needs='a timestamp with an offset and no seconds',breaks='the offset is ignored',
 cpp=ex('ENISOFormatParser','2018-05-01t10:00+02:00','for(auto& x: r) CHECK(x.textLength()<20 or x.startDate.getTimeZoneOffset()==120); string u="2018-05-01t10:00:00+02:00"; auto q=p.execute(u,ref); CHECK(q.size()==1 and q[0].startDate.getTimeZoneOffset()==120); string v="2018-05-01t10:00:+02"; p.execute(v,ref);')),
dict(id='c23-era-case',prop='C23',edits=[(E+'ENMonthNameParser.hpp','std::regex("BC", std::regex::icase)','std::regex("^BC", std::regex::icase)')],
 needs='a blank before BC',breaks='the year of "may 1500 bc" is read as 1500 and reported',
 cpp=ex('ENMonthNameParser','may 1500 bc','CHECK(r.empty());')),
dict(id='c24-end-day-clock',prop='C24',edits=[(E+'ENMonthNameMiddleEndianParser.hpp','                tmp.set_mDay(endDate);','                tmp.set_mDay(std::max(endDate, static_cast<int>(day)));')],
 needs='a range whose second day is smaller',breaks='the stated end day is replaced',
 cpp=ex('ENMonthNameMiddleEndianParser','july 20 - 5','CHECK(r.size()==1 and r[0].end() and r[0].endDate.get_mDay()==5);')),
dict(id='c25-half-past-midnight',prop='C25',edits=[(E+'ENTimeExpressionParser.hpp','                    //meridian = 0;\n                    if(hour == 12) hour = 0;','                    //meridian = 0;\n                    if(hour == 12 and minute == 0) hour = 0;')],
 needs='minutes after 12 am',breaks='12:30 am is read as 12:30',
 cli=[('12:30 am',D,'Date:\\t2018-Jul-18 00:30:00')]),
dict(id='c26-three-digit-end',prop='C26',edits=[(E+'ENTimeExpressionParser.hpp','match.length(TO_HOUR_GROUP) > 2','match.length(TO_HOUR_GROUP) > 3')],
 needs='a range end of three digits without a colon',breaks='the end of "5:00 to 630" is lost',
 cpp=ex('ENTimeExpressionParser','5:00 to 630','CHECK(r.size()==1 and r[0].end() and r[0].endDate.getHour()==6 and r[0].endDate.getMinute()==30);')),
dict(id='c27-new-year-eve-plain',prop='C27',edits=[(E+'ENUSHolidaysParser.hpp','                if(text.find("eve") != std::string::npos) {\n                    // this','                if(text.find("s eve") != std::string::npos) {\n                    // this')],
 needs='new year eve without the s or with several blanks',breaks='new year eve is read as new year',
 cpp=ex('ENHolidayParser',"new year's  eve",'CHECK(r.size()==1 and r[0].startDate.getMonth()==12);')),
dict(id='c28-farther-wins',prop='C28',edits=[(F+'OverlapRemovalRefiner.hpp','if (tmpRes.textLength() > prevResult.textLength())','if (tmpRes.getIndex() + tmpRes.textLength() > prevResult.getIndex() + prevResult.textLength())')],
 needs='a short result that overlaps the end of a longer one',breaks='the one that reaches farther is kept instead of the longer one',
 cpp=REF+'parse::ParsedResult a(ref,0,"0123456789"), b(ref,8,"8901"); a.startDate.setYear(2018); OverlapRemover o; Result r{a,b}; r=o.refine(r,"012345678901"); CHECK(r.size()==1 and r[0].getIndex()==0);'),
dict(id='c29-bump-by-hour',prop='C29',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','endDateTime.date() < startDateTime.date()','endDateTime.getHour() < startDateTime.getHour()')],
 needs='a clock range that ends in the hour it starts in, but earlier',breaks='the end lies before the start',
 cli=[('today at 10:30pm - 10:15pm',D,'Date:\\t2018-Jul-18 22:30:00 - 2018-Jul-19 22:15:00')]),
dict(id='c30-range-into-range',prop='C30',edits=[(FE+'ENMergeDateRangeRefiner.hpp','if(!prev.end() and !curr.end() and isAbleToMerge','if(!curr.end() and isAbleToMerge')],
 needs='a range joined with a further moment',breaks='the end of the range is overwritten',
 cpp=REF+'parse::ParsedResult a(ref,0,"5pm-6pm"), b(ref,11,"7pm"); for(auto x: {&a.startDate,&a.endDate,&b.startDate}) { x->setYear(2018); x->setMonth(7); x->set_mDay(18); x->setHour(17); } a.endDate.setHour(18); b.startDate.setHour(19); a.makeEndDateValid(); Result r{a,b}; ENMergeDateRange m; r=m.refine(r,"5pm-6pm to 7pm"); CHECK(r.size()==2 and r[0].endDate.getHour()==18);'),
dict(id='c31-zero-offset',prop='C31',edits=[(F+'ExtractTimeZoneAbbreviation.hpp','                        if(!res.startDate.isCertain("tzoffset")) {','                        if(offset != 0 and !res.startDate.isCertain("tzoffset")) {')],
 needs='GMT or UTC after a time',breaks='the offset of the start is not certain',
 cpp=ex('ENTimeExpressionParser','5pm gmt','ExtractTimeZoneAbbreviation z; r=z.refine(r,t); CHECK(r.size()==1 and r[0].startDate.isCertain("tzoffset"));')),
dict(id='c32-last-ending',prop='C32',edits=[(FE+'ENMergeDateRangeRefiner.hpp','        if(!curr.isEmpty()) {','        if(!curr.isEmpty() and !(curr.end() and r.size() > 2)) {')],
 needs='three results of which the last is a range',breaks='the last result disappears',
 cpp=REF+'parse::ParsedResult a(ref,0,"aa"), b(ref,5,"bb"), c(ref,10,"cc"); for(auto x: {&a,&b,&c}) { x->startDate.setYear(2018); x->startDate.setMonth(7); x->startDate.set_mDay(18); } c.endDate=c.startDate; c.makeEndDateValid(); Result r{a,b,c}; ENMergeDateRange m; r=m.refine(r,"aa x bb x cc"); CHECK(r.size()==3);'),
dict(id='c33-sorted-by-end',prop='C33',edits=[('time.cpp','return p1.getIndex() < p2.getIndex();','return p1.getIndex() + p1.textLength() < p2.getIndex() + p2.textLength();')],
 needs='overlapping results of two parsers',breaks='results are not in text order, overlap removal keeps the wrong one',
 cli=[('2018-05-01t10:00:00',D,'Date:\\t2018-May-01 10:00:00')]),
dict(id='c36-ago-blank',prop='C36',edits=[(E+'ENISOFormatParser.hpp','R"((?::([0-9]{1,2})(?:\\.(\\d{1,4}))?)?(?:Z|','R"((?::([0-9]{1,2})(?:\\.(\\d{1,4}))?)?\\s*(?:Z|')],
 needs='a blank behind a timestamp and a word behind it',breaks='the blank is taken into the match',
 cpp=ex('ENISOFormatParser','2018-05-01t10:00:00 is','CHECK(r.size()==1 and r[0].textLength()==19);')),
dict(id='c38-week-keeps-clock',prop='C38',edits=[(E+'ENWeekExperessionParser.hpp','            result.startDate.implyComponent("year", tmp.year());','            if(numberOfWeeks > 4)\n                result.startDate.implyComponent("hour", ref.time_of_day().hours());\n\n            result.startDate.implyComponent("year", tmp.year());')],
 needs='more than four weeks',breaks='the hour of the reference is implied',
 cpp=ex('ENWeekExpressionParser','next 6 weeks','CHECK(r.size()==1 and r[0].startDate.getHour()==0);')),
dict(id='c40-midnight-time',prop='C40',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','        if(timeComp.isCertain("hour")) {','        if(timeComp.isCertain("hour") and timeComp.getHour() + timeComp.getMinute() > 0) {')],
 needs='midnight next to a date',breaks='the midnight of "today at 12am" is not certain',
 cpp=REF+'string t="today at 12am"; parser::ENCasualDateParser d; parser::ENTimeExpressionParser e; auto r=d.execute(t,ref); auto s=e.execute(t,ref); r.insert(r.end(),s.begin(),s.end()); ENMergeDateAndTime m; r=m.refine(r,t); CHECK(r.size()==1 and r[0].startDate.isCertain("hour"));'),
dict(id='c41-same-day-ends',prop='C41',edits=[(FE+'ENMergeDateRangeRefiner.hpp','        parse::ParsedResult tmp = toResult;\n        toResult = fromResult;\n        fromResult = tmp;','        parse::ParsedComponents tmp = toResult.startDate;\n        toResult.startDate = fromResult.startDate;\n        if(toResult.startDate.getYear() != tmp.getYear())\n            fromResult.startDate.setYear(tmp.getYear());\n        fromResult.startDate.setMonth(tmp.getMonth());\n        fromResult.startDate.set_mDay(tmp.get_mDay());')],
 needs='two moments in the wrong order that differ in their clock',breaks='the clock of the start is that of the later moment',
 cli=[('today at 5pm to yesterday at 3pm',D,'Date:\\t2018-Jul-17 15:00:00 - 2018-Jul-18 17:00:00')]),
dict(id='c05-month-zero',prop='C05',edits=[(R,'        gregorian::date(getYear(), getMonth(), get_mDay());','        gregorian::date(getYear(), std::max(getMonth(), 1), get_mDay());')],
 needs='components whose month is zero',breaks='a result without a month is reported',
 cpp='parse::ParsedComponents c; c.setYear(2018); c.set_mDay(3); CHECK(!c.isPossibleDate());'),
dict(id='c09-week-of-float',prop='C09',edits=[(P,'        catch (std::exception& err) {','        catch (std::logic_error& err) {')],
 needs='an extraction that throws something that is not a logic error',breaks='the exception leaves the parse',
 cpp='struct Q : parser::ENDeadlineFormatParser { parse::ParsedResult extract(string&, const smatch&, const posix_time::ptime&, long) override { throw std::runtime_error("x"); } }; '+REF+'Q p; string t="in 5 days"; try { auto r=p.execute(t,ref); CHECK(r.empty()); } catch(...) { CHECK(false); }'),
dict(id='c21-next-in-text',prop='C21',edits=[(E+'ENWeekExperessionParser.hpp','numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];','numberOfWeeks = utils::INTEGER_WORDS[match.str(4).substr(0, 5)];')],
 needs='a number word longer than five letters',breaks='eleven or twelve weeks are no weeks',
 cpp=ex('ENWeekExpressionParser','next eleven weeks','CHECK(r.size()==1 and r[0].startDate.getMonth()==10);')),
dict(id='c15-now-without-seconds',prop='C15',edits=[(E+'ENCasualDateParser.hpp','result.startDate.setSeconds(ref.time_of_day().seconds());','result.startDate.setSeconds(ref.time_of_day().total_seconds() % 3600 / 60 == 59 ? 0 : ref.time_of_day().seconds());')],
 needs='a reference in the last minute of an hour',breaks='the seconds of now are dropped',
 cpp=ex('ENCasualDateParser','now','CHECK(r.size()==1 and r[0].startDate.getSeconds()==7);','auto ref=T("2018-07-18 14:59:07"); ')),
dict(id='c10-cached-fragments',prop='C10',edits=[(UC,'    std::map<std::string, float> fragments;// = {};','    static std::map<std::string, float> fragments;\n    if(fragments.size() > 2) fragments.clear();')],
 needs='a second parse of an amount of time',breaks='amounts of earlier parses are added',
 cpp=ex('ENTimeAgoFormatParser','2 days ago','string u="3 days ago"; auto q=p.execute(u,ref); CHECK(q.size()==1 and q[0].startDate.get_mDay()==15);')),
dict(id='c12-twentieth',prop='C12',edits=[(U,'{"twentieth",      20}','{"twentieth",      12}')],
 needs='that ordinal word',breaks='the twentieth is the 12th',
 cli=[('june twentieth 2018',D,'Date:\\t2018-Jun-20 00:00:00')]),
]
