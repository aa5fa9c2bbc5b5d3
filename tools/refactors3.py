R='src/result.cpp'; RH='src/result.hpp'; P='src/parsers/parsers.cpp'; E='src/parsers/en/'; UC='src/utils/utils.cpp'; M='time.cpp'
OV='src/refiners/OverlapRemovalRefiner.hpp'; DT='src/refiners/en/ENMergeDateAndTimeRefiner.hpp'; DR='src/refiners/en/ENMergeDateRangeRefiner.hpp'
G='C09:%s C14:%s C10:%s C07:%s C08:%s C13:%s'
def g(c): return G.replace('%s',c)
EDITS=[
dict(id='deadline-amount',props='C18 C37 C38 '+g('Deadline'),edits=[(E+'ENDeadlineFormatParser.hpp','''            float num;
            // check if integer is in integer_words
            if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                num = utils::INTEGER_WORDS[tmp];
            }
            else if(!tmp.compare("a") || !tmp.compare("an")) {
                num = 1;
            }
            else if(tmp.find("few") != std::string::npos) {
                num = 3;
            }
            else if(tmp.find("half") != std::string::npos) {
                num = 0.5;
            }
            else {
                try {
                    num = std::stoi(tmp);
                }
                catch (std::logic_error& e) {
                    std::cerr << e.what() << std::endl;
                    return result;
                }
            }
''','''            float num{0};
            if(!readAmount(tmp, num)) {
                return result;
            }
'''),(E+'ENDeadlineFormatParser.hpp','''        parse::ParsedResult extract(std::string& tx''','''        static bool readAmount(const std::string& word, float& amount) {
            const auto it = utils::INTEGER_WORDS.find(word);
            if(it != utils::INTEGER_WORDS.end()) {
                amount = it->second;
                return true;
            }
            if(word == "a" or word == "an")
                amount = 1.0f;
            else if(word.find("few") != std::string::npos)
                amount = 3.0f;
            else if(word.find("half") != std::string::npos)
                amount = 0.5f;
            else {
                try {
                    amount = static_cast<float>(std::stoi(word));
                }
                catch (const std::logic_error& e) {
                    std::cerr << e.what() << std::endl;
                    return false;
                }
            }
            return true;
        }

        parse::ParsedResult extract(std::string& tx''')]),
dict(id='deadline-imply',props='C18 C37 C38 '+g('Deadline'),edits=[(E+'ENDeadlineFormatParser.hpp','''                        result.startDate.implyComponent("year", tmpTime.date().year());
                        result.startDate.implyComponent("month", tmpTime.date().month());
                        result.startDate.implyComponent("mday", tmpTime.date().day());
                        result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
                        result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
                        result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());

                        result.setTag(utils::ENDeadlineFormatParser);
                        return result;''','''                        return moment(result, tmpTime);'''),
 (E+'ENDeadlineFormatParser.hpp','''            result.startDate.implyComponent("year", tmpTime.date().year());
            result.startDate.implyComponent("month", tmpTime.date().month());
            result.startDate.implyComponent("mday", tmpTime.date().day());
            result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
            result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
            result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());

            result.setTag(utils::ENDeadlineFormatParser);

            return result;''','''            return moment(result, tmpTime);'''),
 (E+'ENDeadlineFormatParser.hpp','''        parse::ParsedResult extract(std::string& tx''','''        /// implies every field of a moment
        static parse::ParsedResult moment(parse::ParsedResult result, const posix_time::ptime& at) {
            const auto day = at.date().year_month_day();
            const auto clock = at.time_of_day();
            parse::ParsedComponents& start = result.startDate;
            start.implyComponent("sec", clock.seconds());
            start.implyComponent("min", clock.minutes());
            start.implyComponent("hour", clock.hours());
            start.implyComponent("mday", day.day);
            start.implyComponent("month", day.month);
            start.implyComponent("year", day.year);
            result.setTag(utils::ENDeadlineFormatParser);
            return result;
        }

        parse::ParsedResult extract(std::string& tx''')]),
dict(id='texpr-meridiem',props='C25 C26 C37 '+g('TimeExpression'),edits=[(E+'ENTimeExpressionParser.hpp','''                if(ampm_s == 'a') {
                    //meridian = 0;
                    if(hour == 12) hour = 0;
                }

                if(ampm_s == 'p') {
                    //meridian = 1;
                    if(hour != 12) hour += 12;
                }''','''                hour = to24(hour, ampm_s);'''),
 (E+'ENTimeExpressionParser.hpp','''                    if(ampm == 'a')
                        if(to_hour == 12)
                            to_hour = 0;

                    if(ampm == 'p') {
                        if(to_hour != 12)
                            to_hour += 12;
                        if''','''                    to_hour = to24(to_hour, ampm);
                    if(ampm == 'p') {
                        if'''),
 (E+'ENTimeExpressionParser.hpp','''        parse::ParsedResult extract(std::string& tx''','''        static int to24(int h, char meridiem) {
            switch(meridiem) {
                case 'a': return h == 12 ? 0 : h;
                case 'p': return h == 12 ? h : h + 12;
                default:  return h;
            }
        }

        parse::ParsedResult extract(std::string& tx''')]),
dict(id='texpr-split',props='C25 C26 C37 '+g('TimeExpression'),edits=[(E+'ENTimeExpressionParser.hpp','''                if(!match.str(TO_MINUTE_GROUP).empty()) {
                    to_minute = std::stoi(match.str(TO_MINUTE_GROUP));
                }
                else if(match.length(TO_HOUR_GROUP) > 2) {
                    to_minute = to_hour % 100;
                    to_hour = to_hour / 100;
                }

                if(to_minute >= 60 or to_hour > 24) {
                    return result;
                }''','''                splitDigits(match, TO_HOUR_GROUP, TO_MINUTE_GROUP, to_hour, to_minute);
                const bool readable = to_minute < 60 && to_hour <= 24;
                if(!readable)
                    return result;'''),
 (E+'ENTimeExpressionParser.hpp','''            if(!match.str(MINUTE_GROUP).empty()) {
                minute = std::stoi(match.str(MINUTE_GROUP));
            }
            else if(match.length(HOUR_GROUP) > 2 and std::isdigit(match.str(HOUR_GROUP)[0])) {
                minute = hour % 100;
                hour = hour / 100;
            }

            if(minute >= 60) {
                return result;
            }

            if(hour > 24) {
                return result;
            }''','''            if(match[MINUTE_GROUP].matched or std::isdigit(static_cast<unsigned char>(match.str(HOUR_GROUP).front())))
                splitDigits(match, HOUR_GROUP, MINUTE_GROUP, hour, minute);

            if(minute > 59 or hour > 24)
                return result;'''),
 (E+'ENTimeExpressionParser.hpp','''        parse::ParsedResult extract(std::string& tx''','''        static void splitDigits(const std::smatch& m, unsigned short hours, unsigned short minutes, int& h, int& min) {
            if(m[minutes].matched) {
                min = std::stoi(m[minutes].str());
                return;
            }
            if(m[hours].length() > 2) {
                min = h % 100;
                h /= 100;
            }
        }

        parse::ParsedResult extract(std::string& tx''')]),
dict(id='relative-sign',props='C20 C37 '+g('Relative'),edits=[(E+'ENRelativeDateFormatParser.hpp','''                        if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                            tmpDate += gregorian::days(static_cast<int>(num));
                        }
                        else{
                            tmpDate -= gregorian::days(static_cast<int>(num));
                        }''','''                        tmpDate += gregorian::days(sign * static_cast<int>(num));'''),
 (E+'ENRelativeDateFormatParser.hpp','''                        if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                            tmpDate += gregorian::weeks(static_cast<int>(num));
                        }
                        else {
                            tmpDate -= gregorian::weeks(static_cast<int>(num));
                        }''','''                        tmpDate += gregorian::weeks(sign * static_cast<int>(num));'''),
 (E+'ENRelativeDateFormatParser.hpp','''            // not this
            if(''','''            // not this
            const int sign = match.str(MODIFIER_WORD_GROUP) == "next" ? 1 : -1;
            if(''')]),
dict(id='ago-bindings',props='C19 C37 '+g('TimeAgo'),edits=[(E+'ENTimeAgoFormatParser.hpp','''            for(const auto& a : fragments) {
                try {
                    if(a.first == "year")
                        date_t -= gregorian::years(static_cast<int> (a.second));
                    else if(a.first == "month")
                        date_t -= gregorian::months(static_cast<int> (a.second));
                    else if(a.first == "week")            // this did not mean a literal week but rather a weekday
                        date_t -= gregorian::weeks(a.second);
                    else if(a.first == "day")
                        date_t -= gregorian::days(
                                static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                    else if(a.first == "hour")
                        date_t -= posix_time::hours(static_cast<int> (a.second));
                    else if(a.first == "minute")
                        date_t -= posix_time::minutes(static_cast<int> (a.second));
                    else if(a.first == "second")
                        date_t -= posix_time::seconds(static_cast<int> (a.second));
                }''','''            for(const auto& [unit, amount] : fragments) {
                try {
                    const int n = static_cast<int>(amount);
                    if(unit == "year")
                        date_t -= gregorian::years(n);
                    else if(unit == "month")
                        date_t -= gregorian::months(n);
                    else if(unit == "week")
                        date_t -= gregorian::days(7 * n);
                    else if(unit == "day")
                        date_t -= gregorian::days(n);
                    else if(unit == "hour")
                        date_t -= posix_time::hours(n);
                    else if(unit == "minute")
                        date_t -= posix_time::minutes(n);
                    else if(unit == "second")
                        date_t -= posix_time::seconds(n);
                }'''),
 (E+'ENTimeAgoFormatParser.hpp','''            if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {''','''            const auto has = [&fragments](const char* unit) { return fragments.count(unit) > 0 and fragments.at(unit) > 0; };
            if(has("hour") or has("minute") or has("second")) {''')]),
dict(id='mme-year',props='C24 C37 '+g('MiddleEndian'),edits=[(E+'ENMonthNameMiddleEndianParser.hpp','''                if(!match.str(YEAR_GROUP).empty())
                    year_s = match.str(YEAR_GROUP);
                if(!match.str(YEAR_GROUP2).empty())
                    year_s = match.str(YEAR_GROUP2);
''','''                year_s = match[YEAR_GROUP2].length() > 0 ? match.str(YEAR_GROUP2) : match.str(YEAR_GROUP);
'''),
 (E+'ENMonthNameMiddleEndianParser.hpp','''                parse::ParsedComponents tmp{result.startDate};
                tmp.set_mDay(endDate);
                tmp.setHour(23);
                tmp.setMinute(59);
                result.endDate = tmp;
                result.makeEndDateValid();''','''                result.makeEndDateValid();
                result.endDate = result.startDate;
                result.endDate.setHour(23);
                result.endDate.setMinute(59);
                result.endDate.set_mDay(endDate);'''),
 (E+'ENMonthNameMiddleEndianParser.hpp','''                if(std::abs((nextY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                    // compare the durations returned
                    dRef = nextY;
                }
                else if(std::abs((prevY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                    dRef = prevY;
                }
''','''                const auto away = [&ref](const gregorian::date& d) {
                    const long n = (d - ref.date()).days();
                    return n < 0 ? -n : n;
                };
                const long here = away(dRef);
                if(away(nextY) < here)
                    dRef = nextY;
                else if(away(prevY) < here)
                    dRef = prevY;
''')]),
dict(id='fragments-table',props='C19 C09:Time C10:Time C13:Time',edits=[(UC,'''    if(std::regex_search(element, std::regex("hour", std::regex::icase)))
        fragments["hour"] += num;
    else if(std::regex_search(element, std::regex("min", std::regex::icase)))
        fragments["minute"] += num;
    else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
        fragments["second"] += num;
    else if(std::regex_search(element, std::regex("week", std::regex::icase)))
        fragments["week"] += num;
    else if(std::regex_search(element, std::regex("day", std::regex::icase)))
        fragments["day"] += num;
    else if(std::regex_search(element, std::regex("month", std::regex::icase)))
        fragments["month"] += num;
    else if(std::regex_search(element, std::regex("year", std::regex::icase)))
        fragments["year"] += num;
''','''    static const std::pair<const char*, const char*> UNITS[] = {
        {"hour", "hour"}, {"min", "minute"}, {"sec", "second"}, {"week", "week"},
        {"day", "day"}, {"month", "month"}, {"year", "year"}};
    for(const auto& unit : UNITS) {
        if(std::regex_search(element, std::regex(unit.first, std::regex::icase))) {
            fragments[unit.second] += num;
            break;
        }
    }
''')]),
dict(id='certain-find',props='C01 C02 C03 C16 C37',span=(R,'    // also requires implementation\n','    return false;\n}\n',1),new='''    const auto it = knownValues.find(comp);
    if(it == knownValues.end()) {
        std::cerr << "Invalid component: " << comp << std::endl;
        return false;
    }
    return it->second.first;
}
'''),
dict(id='date-ptime',props='C01 C29 C30',edits=[(R,'''    tm temp;
    temp.tm_year = getYear()-1900;
    temp.tm_mon  = getMonth()-1;
    temp.tm_mday = get_mDay();
    temp.tm_wday = get_wDay();
    temp.tm_hour = getHour();
    temp.tm_min  = getMinute();
    temp.tm_sec  = getSeconds();
    // todo: integrate timezone offset in returned time

    return posix_time::ptime_from_tm(temp);''','''    const gregorian::date day(getYear(), getMonth(), get_mDay());
    const posix_time::time_duration clock = posix_time::hours(getHour()) + posix_time::minutes(getMinute()) + posix_time::seconds(getSeconds());
    return posix_time::ptime(day, clock);''')]),
dict(id='scan-iterators',props='C05 C06 C07 C08 C09 C10 C39:casual C41',span=(P,'    std::string remainingText = text;\n','    return results;\n}',True),new='''    std::string remainingText = text;
    const auto next = [&]() -> bool {
        try {
            return std::regex_search(remainingText, match, getPattern());
        }
        catch (std::regex_error& err) {
            std::cerr << err.what() << std::endl;
            return false;
        }
    };

    while(next()) {
        // index of match on full text
        idx = text.length() - remainingText.length() + match.position(0);
        const auto length = match.length(0);

        try {
            const parse::ParsedResult found = extract(remainingText, match, ref, idx);
            parse::ParsedResult res{found};
            if(res.hasPossibleDates())
                results.push_back(res);
        }
        catch (std::exception& err) {
            // numbers or dates that can not be represented: no result
            std::cerr << err.what() << std::endl;
        }

        remainingText = text.substr(idx + length);
    }

    return results;
}
'''),
dict(id='main-stable',props='C33 C39:casual C40:ISO C41:ISO',edits=[(M,'''    std::sort(results.begin(), results.end(),
            [&](parse::ParsedResult p1, parse::ParsedResult p2) {
                return p1.getIndex() < p2.getIndex();
    });''','''    const auto earlier = [](const parse::ParsedResult& a, const parse::ParsedResult& b) { return a.getIndex() < b.getIndex(); };
    std::stable_sort(results.begin(), results.end(), earlier);'''),(M,'''    if(results.empty())
        cout << "[???] -- Invalid date" << endl;
    else
        cout << "Date:\\t"  << results.at(0).toDate() << endl;
''','''    if(!results.empty()) {
        parse::ParsedResult& best = results.front();
        const string shown = best.toDate();
        cout << "Date:\\t" << shown << endl;
        return 0;
    }
    cout << "[???] -- Invalid date" << endl;
''')]),
dict(id='main-accumulate',props='C33 C39:casual C40:ISO',edits=[(M,'''    for(auto& parser: parsers) {
        Result p_result = parser->execute(str, t);
        results.insert(results.end(), p_result.begin(), p_result.end());
    }''','''    for(auto it = parsers.begin(); it != parsers.end(); ++it) {
        for(const auto& found : (*it)->execute(str, t)) {
            results.push_back(found);
        }
    }''')]),
dict(id='holiday-table',props='C27 C37 '+g('Holiday'),edits=[(E+'ENUSHolidaysParser.hpp','''            if(text.find("independence") != std::string::npos) {
                result.startDate.setYear(ref.date().year());
                result.startDate.setMonth(7);
                result.startDate.set_mDay(4);
            }''','''            const auto named = [&text](const char* name) { return text.find(name) != std::string::npos; };
            const auto fix = [&](int month, int dayOfMonth) {
                result.startDate.set_mDay(dayOfMonth);
                result.startDate.setMonth(month);
                result.startDate.setYear(ref.date().year());
            };
            if(named("independence")) {
                fix(7, 4);
            }'''),(E+'ENUSHolidaysParser.hpp','''            else if(text.find("veteran") != std::string::npos) {
                result.startDate.setYear(ref.date().year());
                result.startDate.setMonth(11);
                result.startDate.set_mDay(11);
            }''','''            else if(named("veteran")) {
                fix(11, 11);
            }''')]),
dict(id='iso-matched',props='C22 C37 '+g('ISO'),edits=[(E+'ENISOFormatParser.hpp','''            if(!match.str(HOUR_NUMBER_GROUP).empty()) {
                if(std::stoi(match.str(HOUR_NUMBER_GROUP)) > 24 or std::stoi(match.str(MINUTE_NUMBER_GROUP)) >= 60) {
                    return result;
                }
                if(!match.str(SECOND_NUMBER_GROUP).empty() and std::stoi(match.str(SECOND_NUMBER_GROUP)) >= 60) {
                    return result;
                }
            }
''','''            const bool timed = match[HOUR_NUMBER_GROUP].matched;
            const int hour   = timed ? std::stoi(match.str(HOUR_NUMBER_GROUP)) : 0;
            const int minute = timed ? std::stoi(match.str(MINUTE_NUMBER_GROUP)) : 0;
            if(hour > 24 or minute > 59)
                return result;
            if(timed and match[SECOND_NUMBER_GROUP].matched and std::stoi(match.str(SECOND_NUMBER_GROUP)) > 59)
                return result;
'''),(E+'ENISOFormatParser.hpp','''            if(!match.str(HOUR_NUMBER_GROUP).empty()) {
                result.startDate.setHour(std::stoi(match.str(HOUR_NUMBER_GROUP)));
                result.startDate.setMinute(std::stoi(match.str(MINUTE_NUMBER_GROUP)));
''','''            if(timed) {
                result.startDate.setHour(hour);
                result.startDate.setMinute(minute);
''')]),
dict(id='lower-foreach',props='C08 C10:Casual C17 C11:casual',edits=[(UC,'std::transform(text.begin(), text.end(), text.begin(), ::tolower);\n    return text;','''std::string lowered;
    lowered.reserve(text.size());
    for(const char c : text)
        lowered += static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    return lowered;''')]),
dict(id='overlap-const',props='C28 C32 C14:tags',span=(OV,'        Result filteredResults;\n','        return filteredResults;\n',1),new='''        Result filteredResults;
        parse::ParsedResult kept{r.front()};
        auto it = r.begin();
        while(++it != r.end()) {
            const auto keptEnd = kept.getIndex() + kept.textLength();
            if(it->getIndex() >= keptEnd) {
                filteredResults.push_back(kept);
                kept = *it;
            }
            else if(it->textLength() > kept.textLength()) {
                kept = *it;
            }
        }
        if(!kept.isEmpty())
            filteredResults.push_back(kept);

        return filteredResults;
'''),
dict(id='dt-clock-lambda',props='C29 C32 C40:ISO C14:tags',edits=[(DT,'''        if(timeComp.isCertain("hour")) {
            dateTimeComp.setHour(timeComp.getHour());
            dateTimeComp.setMinute(timeComp.getMinute());
''','''        const int h = timeComp.getHour(), m = timeComp.getMinute(), s = timeComp.getSeconds();
        if(timeComp.isCertain("hour")) {
            dateTimeComp.setHour(h);
            dateTimeComp.setMinute(m);
'''),(DT,'''        else {
            dateTimeComp.implyComponent("hour", timeComp.getHour());
            dateTimeComp.implyComponent("min", timeComp.getMinute());
            dateTimeComp.implyComponent("sec", timeComp.getSeconds());
        }''','''        else {
            const std::pair<const char*, int> clock[] = {{"hour", h}, {"min", m}, {"sec", s}};
            for(const auto& field : clock)
                dateTimeComp.implyComponent(field.first, field.second);
        }''')]),
dict(id='dr-const-cmp',props='C30 C41 C14:tags',edits=[(DR,'''    if(fromResult.startDate.date() > toResult.startDate.date()) {
        parse::ParsedResult tmp = toResult;
        toResult = fromResult;
        fromResult = tmp;
    }
''','''    const posix_time::ptime from = fromResult.startDate.date(), until = toResult.startDate.date();
    if(until < from)
        std::swap(fromResult, toResult);
''')]),
dict(id='casual-return',props='C15 C37 C38 '+g('CasualDate'),edits=[(E+'ENCasualDateParser.hpp','''            if(!text.find("tonight")) {''','''            const auto clock = ref.time_of_day();
            const auto startsWith = [&text](const std::string& word) { return text.compare(0, word.size(), word) == 0; };
            if(startsWith("tonight")) {'''),(E+'ENCasualDateParser.hpp','''            else if(!text.find("tomorrow") or !text.find("tmr")) {
                // checks not tomorrow on a late night
                if(ref.time_of_day().hours() > 0) {
                    tmp += gregorian::days(1);
                }
            }
            else if(!text.find("yesterday")) {''','''            else if(startsWith("tomorrow") or startsWith("tmr")) {
                // checks not tomorrow on a late night
                tmp += gregorian::days(clock.hours() > 0 ? 1 : 0);
            }
            else if(startsWith("yesterday")) {''')]),
dict(id='week-lookup',props='C21 C37 C38 '+g('Week'),edits=[(E+'ENWeekExperessionParser.hpp','''                if(utils::INTEGER_WORDS.find(match.str(4)) == utils::INTEGER_WORDS.end()) {
                    return result;
                }
                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];''','''                const std::string word = match[4];
                const auto known = utils::INTEGER_WORDS.find(word);
                if(known == utils::INTEGER_WORDS.end())
                    return result;
                numberOfWeeks = static_cast<int>(known->second);''')]),
]
