F='src/refiners/'; FE='src/refiners/en/'
D='2018-07-18 14:33:00'
BUGS=[
dict(id='c42-overlap-near',prop='C42',edits=[(F+'OverlapRemovalRefiner.hpp','tmpRes.getIndex() < prevResult.getIndex() + prevResult.textLength()','tmpRes.getIndex() <= prevResult.getIndex() + prevResult.textLength() + 4 and tmpRes.textLength() > 9')],
 needs='a long expression up to four characters behind a shorter one',breaks='"today or 2018-05-06" shows the second expression',
 cli=[('today or next friday',D,'Date:\\t2018-Jul-18 00:00:00')]),
dict(id='c42-prefers-dated',prop='C42',edits=[('time.cpp','        cout << "Date:\\t"  << results.at(0).toDate() << endl;','        cout << "Date:\\t"  << std::find_if(results.begin(), results.end() - 1, [](parse::ParsedResult& p) { return p.startDate.isCertain("mday"); })->toDate() << endl;')],
 needs='an expression with a date behind one without',breaks='"5pm or 2018-05-06 or friday" shows the date, and a text without a dated expression its last one',
 cli=[('5pm or 2018-05-06 or friday',D,'Date:\\t2018-Jul-18 17:00:00')]),
dict(id='c43-equal-clocks',prop='C43',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','            if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {','            if(!dateResult.end() and !(startDateTime.date() < endDateTime.date())) {')],
 needs='a clock range whose ends are the same time',breaks='it ends on the next day',
 cli=[('yesterday 5pm to 5pm',D,'Date:\\t2018-Jul-17 17:00:00 - 2018-Jul-17 17:00:00')]),
dict(id='c43-short-overnight',prop='C43',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','            if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {','            if(!dateResult.end() and endDateTime.getHour() + 12 <= startDateTime.getHour()) {')],
 needs='an end that is earlier than the start by less than twelve hours',breaks='the range ends before it starts',
 cli=[('tomorrow 10am to 9am',D,'Date:\\t2018-Jul-19 10:00:00 - 2018-Jul-20 09:00:00')]),
dict(id='c44-range-loses-mark',prop='C44',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','            if(timeResult.getTag(mod))\n                dateResult.setTag(mod);','            if(timeResult.getTag(mod) and (mod != utils::ExtractTimeZoneAbbreviation or !timeResult.end()))\n                dateResult.setTag(mod);')],
 needs='a date next to a clock range with a zone',breaks='the merged range is no longer marked as shifted and is shown unshifted',
 cli=[('tomorrow 5pm - 7pm est',D,'Date:\\t2018-Jul-19 12:00:00 - 2018-Jul-19 14:00:00')]),
dict(id='c44-negative-after-merge',prop='C44',edits=[(FE+'ENMergeDateAndTimeRefiner.hpp','        dateResult.startDate = startDateTime;','        if(startDateTime.getTimeZoneOffset() % 60 != 0)\n            startDateTime.setTimeZoneOffset(startDateTime.getTimeZoneOffset() - startDateTime.getTimeZoneOffset() % 60);\n        dateResult.startDate = startDateTime;')],
 needs='a date next to a clock time in a zone with a part of an hour',breaks='the offset is cut to whole hours when date and time are merged',
 cli=[('tomorrow at 5pm npt',D,'Date:\t2018-Jul-19 22:45:00')]),
]
