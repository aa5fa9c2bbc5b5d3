"""Behaviour-preserving edits of refiners, parsers and the program."""
R='src/result.cpp'; RH='src/result.hpp'; P='src/parsers/parsers.cpp'; E='src/parsers/en/'; U='src/utils/utils.hpp'; UC='src/utils/utils.cpp'
F='src/refiners/'; FE='src/refiners/en/'; M='time.cpp'
DT=FE+'ENMergeDateAndTimeRefiner.hpp'; DR=FE+'ENMergeDateRangeRefiner.hpp'; TZ=F+'ExtractTimeZoneAbbreviation.hpp'; OV=F+'OverlapRemovalRefiner.hpp'
EDITS=[
dict(id='overlap-iter',props='C28 C14:tags',edits=[(OV,'''        for(unsigned i=1; i<r.size(); i++) {
            parse::ParsedResult tmpRes{r[i]};
''','''        for(auto it = r.begin() + 1; it != r.end(); ++it) {
            const parse::ParsedResult& tmpRes = *it;
''')]),
dict(id='overlap-back',props='C28 C14:tags',span=(OV,'        Result filteredResults;\n','        return filteredResults;\n',1),new='''        Result filteredResults;
        filteredResults.push_back(r.front());
        for(size_t i = 1; i < r.size(); ++i) {
            parse::ParsedResult& last = filteredResults.back();
            const size_t lastEnd = last.getIndex() + last.textLength();
            if(r[i].getIndex() >= lastEnd)
                filteredResults.push_back(r[i]);
            else if(r[i].textLength() > last.textLength())
                last = r[i];
        }
        return filteredResults;
'''),
dict(id='overlap-helper',props='C28',edits=[(OV,'    Result refine(Result r, std::string t) override {','''    static bool overlaps(const parse::ParsedResult& a, const parse::ParsedResult& b) {
        return b.getIndex() < a.getIndex() + a.textLength();
    }

    Result refine(Result r, std::string t) override {'''),(OV,'if (tmpRes.getIndex() < prevResult.getIndex() + prevResult.textLength()) {','if (overlaps(prevResult, tmpRes)) {')]),
dict(id='dt-loop',props='C29 C32 C14:tags',span=(DT,'        parse::ParsedResult prev, curr, tmp;\n','        return merged_result;\n',1),new='''        Result merged_result;
        size_t i = 0;
        while(i < r.size()) {
            if(i + 1 < r.size()) {
                parse::ParsedResult& first = r[i];
                parse::ParsedResult& second = r[i + 1];
                if(isDateOnly(first) and isTimeOnly(second) and isAbleToMerge(t, first, second)) {
                    merged_result.push_back(mergeResult(t, first, second));
                    i += 2;
                    continue;
                }
                if(isDateOnly(second) and isTimeOnly(first) and isAbleToMerge(t, first, second)) {
                    merged_result.push_back(mergeResult(t, second, first));
                    i += 2;
                    continue;
                }
            }
            merged_result.push_back(r[i]);
            i++;
        }
        return merged_result;
'''),
dict(id='dt-between',props='C29 C32',edits=[(DT,'''        std::string textBetween = text.substr(prev.getIndex() + prev.textLength(),
                                              curr.getIndex() - (prev.getIndex() + prev.textLength()));
        return std::regex_match(textBetween, pattern);''','''        const size_t from = prev.getIndex() + prev.textLength();
        const size_t to = curr.getIndex();
        return std::regex_match(text.begin() + from, text.begin() + to, pattern);''')]),
dict(id='dt-copy-helper',props='C29',edits=[(DT,'''                if(endDateTime.isCertain("mday"))
                    endDateTime.set_mDay(next.day());
                else
                    endDateTime.implyComponent("mday", next.day());
                if(endDateTime.isCertain("month"))
                    endDateTime.setMonth(next.month());
                else
                    endDateTime.implyComponent("month", next.month());
                if(endDateTime.isCertain("year"))
                    endDateTime.setYear(next.year());
                else
                    endDateTime.implyComponent("year", next.year());
''','                moveTo(endDateTime, next);\n'),(DT,'    parse::ParsedResult mergeResult(std::string& text,','''    static void moveTo(parse::ParsedComponents& c, const gregorian::date& day) {
        const bool sureYear = c.isCertain("year"), sureMonth = c.isCertain("month"), sureDay = c.isCertain("mday");
        sureYear ? c.setYear(day.year()) : c.implyComponent("year", day.year());
        sureMonth ? c.setMonth(day.month()) : c.implyComponent("month", day.month());
        sureDay ? c.set_mDay(day.day()) : c.implyComponent("mday", day.day());
    }

    parse::ParsedResult mergeResult(std::string& text,''')]),
dict(id='dt-ternary',props='C29',edits=[(DT,'''            parse::ParsedComponents endDate, endTime, endDateTime;

            dateResult.end() ? endDate = dateResult.endDate : endDate = dateResult.startDate;
            timeResult.end() ? endTime = timeResult.endDate : endTime = timeResult.startDate;

            endDateTime = mergeDateTimeComponent(endDate, endTime);
''','''            const auto& endDate = dateResult.end() ? dateResult.endDate : dateResult.startDate;
            const auto& endTime = timeResult.end() ? timeResult.endDate : timeResult.startDate;
            parse::ParsedComponents endDateTime = mergeDateTimeComponent(endDate, endTime);
''')]),
dict(id='dr-loop',props='C30 C32 C14:tags',span=(DR,'        parse::ParsedResult prev, curr, tmp;\n','        return merged_result;\n',1),new='''        Result merged_result;
        for(size_t i = 0; i < r.size(); ++i) {
            const bool pair = i + 1 < r.size() and !r[i].end() and !r[i + 1].end();
            if(pair and isAbleToMerge(t, r[i], r[i + 1])) {
                merged_result.push_back(mergeResult(t, r[i], r[i + 1]));
                ++i;
            }
            else
                merged_result.push_back(r[i]);
        }
        return merged_result;
'''),
dict(id='dr-swap',props='C30 C14:tags',edits=[(DR,'''        parse::ParsedResult tmp = toResult;
        toResult = fromResult;
        fromResult = tmp;
''','        std::swap(fromResult, toResult);\n')]),
dict(id='dr-tags',props='C30 C14:tags',edits=[(DR,'''    for(const auto& mod: utils::ModList) {
        if(toResult.getTag(mod))
            fromResult.setTag(mod);
    }
''','''    std::for_each(utils::ModList.begin(), utils::ModList.end(), [&](const utils::Modifiers& mod) {
        if(toResult.getTag(mod))
            fromResult.setTag(mod);
    });
''')]),
dict(id='tz-early',props='C31 C32',span=(TZ,'        // Result refinedResults;\n','        return r;\n',1),new='''        static const std::regex zone(TIMEZONE_NAME_PATTERN, std::regex::icase);
        for(auto& res : r) {
            if(!res.getTag(utils::ENTimeExpressionParser))
                continue;
            const size_t after = res.getIndex() + res.textLength();
            if(after > text.size())
                continue;
            const std::string rest = text.substr(after);
            std::smatch match;
            if(!std::regex_search(rest, match, zone))
                continue;
            const auto entry = utils::DEFAULT_TIMEZONE_ABBR_MAP.find(utils::toUpperCase(match.str(1)));
            if(entry == utils::DEFAULT_TIMEZONE_ABBR_MAP.end())
                continue;
            if(!res.startDate.isCertain("tzoffset"))
                res.startDate.setTimeZoneOffset(entry->second);
            if(res.end() && !res.endDate.isCertain("tzoffset"))
                res.endDate.setTimeZoneOffset(entry->second);
            res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
            res.setTag(utils::ExtractTimeZoneAbbreviation);
        }
        return r;
'''),
dict(id='main-vector',props='C33',edits=[(M,'list<std::shared_ptr<parser::Parser> >  parsers ','vector<std::shared_ptr<parser::Parser> >  parsers '),(M,'''        Result p_result = parser->execute(str, t);
        results.insert(results.end(), p_result.begin(), p_result.end());''','''        for(auto& found : parser->execute(str, t))
            results.push_back(found);'''),(M,'''            [&](parse::ParsedResult p1, parse::ParsedResult p2) {
                return p1.getIndex() < p2.getIndex();''','''            [](const parse::ParsedResult& lhs, const parse::ParsedResult& rhs) {
                return lhs.getIndex() < rhs.getIndex();''')]),
dict(id='main-ref',props='C33',edits=[(M,'''    if(argc == 2){
        t = posix_time::second_clock::local_time();
    }

    if(argc == 3) {
        string refDate = argv[2];
        t = posix_time::time_from_string(refDate);
    }
''','''    t = (argc == 3) ? posix_time::time_from_string(std::string(argv[2])) : posix_time::second_clock::local_time();
''')]),
dict(id='main-functions',props='C33',edits=[(M,'int main(int argc','''static Result collect(const list<std::shared_ptr<parser::Parser> >& parsers, string& str, posix_time::ptime& t) {
    Result all;
    for(const auto& p : parsers) {
        const Result found = p->execute(str, t);
        std::copy(found.begin(), found.end(), std::back_inserter(all));
    }
    return all;
}

static void report(Result& results) {
    if(!results.empty()) {
        cout << "Date:\\t" << results.front().toDate() << endl;
        return;
    }
    cout << "[???] -- Invalid date" << endl;
}

int main(int argc'''),(M,'''    for(auto& parser: parsers) {
        Result p_result = parser->execute(str, t);
        results.insert(results.end(), p_result.begin(), p_result.end());
    }
''','    results = collect(parsers, str, t);\n'),(M,'''    if(results.empty())
        cout << "[???] -- Invalid date" << endl;
    else
        cout << "Date:\\t"  << results.at(0).toDate() << endl;
''','    report(results);\n')]),
dict(id='main-refiners-inline',props='C33',edits=[(M,'''    for(auto& refiner: refiners) {
        results = refiner->refine(results, str);
    }
''','''    for(auto it = refiners.begin(); it != refiners.end(); ++it) {
        Result refined = (*it)->refine(results, str);
        results.swap(refined);
    }
''')]),
dict(id='casual-switch',props='C15 C08:CasualDate C07:CasualDate C10:CasualDate C14:CasualDate C09:CasualDate',span=(E+'ENCasualDateParser.hpp','            if(!text.find("tonight")) {','            result.startDate.setYear(tmp.date().year());',0),new='''            const auto clock = ref.time_of_day();
            const bool lastNight = std::regex_search(text, std::regex("last\\\\s*night", std::regex::icase));

            if(text == "now") {
                result.startDate.setHour(clock.hours());
                result.startDate.setMinute(clock.minutes());
                result.startDate.setSeconds(clock.seconds());
            }
            else if(text == "tonight")
                result.startDate.implyComponent("hour", 22);
            else if(text == "yesterday") {
                tmp -= gregorian::days(1);
                result.startDate.implyComponent("hour", clock.hours());
            }
            else if(lastNight) {
                result.startDate.implyComponent("hour", 0);
                tmp -= gregorian::days(clock.hours() > 6 ? 1 : 0);
            }
            else if(text != "today" && clock.hours() > 0)
                tmp += gregorian::days(1);

            const gregorian::date day = tmp.date();
            result.startDate.set_mDay(day.day());
            result.startDate.setMonth(day.month());
            result.startDate.setYear(day.year());
            result.setTag(utils::ENCasualDateParser);
            return result;
'''),
dict(id='casual-map',props='C16 C13:CasualTime C08:CasualTime C14:CasualTime C10:CasualTime',span=(E+'ENCasualTimeParser.hpp','            if(!subs.compare("afternoon")) {','            result.startDate.implyComponent("year", ref',0),new='''            static const std::map<std::string, int> HOURS{{"morning", 6}, {"noon", 12}, {"afternoon", 15}, {"evening", 20}, {"night", 20}};
            const auto hour = HOURS.find(subs);
            if(hour != HOURS.end())
                result.startDate.implyComponent("hour", hour->second);

'''),
dict(id='weekday-arith',props='C17 C09:DayOfWeek C14:DayOfWeek C10:DayOfWeek C13:DayOfWeek',span=(E+'ENDayOfTheWeekParser.hpp','            if(!modifier.compare("last") or','            if(resOffset.is_special()) {',0),new='''            const int delta = static_cast<int>(offset) - start.day_of_week().as_number();
            int shift = delta;
            if(modifier == "last" or modifier == "past") {
                shift = delta - 7;
                start_fixed = true;
            }
            else if(modifier == "next") {
                shift = delta + 7;
                start_fixed = true;
            }
            resOffset = start + gregorian::days(shift);

'''),
dict(id='weekday-inline',props='C17 C14:DayOfWeek',edits=[(E+'ENDayOfTheWeekParser.hpp','''            if (prefix.empty())
                norm = postfix;
            else if (postfix.empty())
                norm = prefix;
            else
                norm = "";
''','''            norm = prefix.empty() ? postfix : (postfix.empty() ? prefix : std::string());
''')]),
dict(id='holiday-helper',props='C27 C09:Holiday C14:Holiday C10:Holiday',edits=[(E+'ENUSHolidaysParser.hpp','''                utils::ndow thirdMondayOfJan(utils::ndow::third, gregorian::Monday, gregorian::Jan);
                day = thirdMondayOfJan.get_date(ref.date().year());

                result.startDate.setYear(day.year());
                result.startDate.setMonth(day.month());
                result.startDate.set_mDay(day.day());
                result.startDate.set_wDay(day.day_of_week());
''','''                put(result, utils::ndow(utils::ndow::third, gregorian::Monday, gregorian::Jan).get_date(ref.date().year()));
'''),(E+'ENUSHolidaysParser.hpp','        parse::ParsedResult extract(','''        static void put(parse::ParsedResult& result, const gregorian::date& day) {
            const auto fields = day.year_month_day();
            result.startDate.setYear(fields.year);
            result.startDate.setMonth(fields.month);
            result.startDate.set_mDay(fields.day);
            result.startDate.set_wDay(day.day_of_week().as_number());
        }

        parse::ParsedResult extract(''')]),
dict(id='iso-lambda',props='C22 C09:ISO C07:ISO C14:ISO',span=(E+'ENISOFormatParser.hpp','            int month = std::stoi','            result.setTag(utils::ENISOFormatParser);',0),new='''            auto stated = [&](unsigned short g) { return match[g].matched; };
            auto number = [&](unsigned short g) { return std::stoi(match.str(g)); };

            const int month = number(MONTH_NUMBER_GROUP), day = number(DATE_NUMBER_GROUP);
            if(month < 1 || month > 12 || day < 1 || day > 31)
                return result;

            const bool withTime = stated(HOUR_NUMBER_GROUP);
            const bool withSeconds = withTime && stated(SECOND_NUMBER_GROUP);
            if(withTime && (number(HOUR_NUMBER_GROUP) > 24 || number(MINUTE_NUMBER_GROUP) > 59))
                return result;
            if(withSeconds && number(SECOND_NUMBER_GROUP) > 59)
                return result;

            result.startDate.set_mDay(day);
            result.startDate.setMonth(month);
            result.startDate.setYear(number(YEAR_NUMBER_GROUP));

            if(withTime) {
                int offset = 0;
                if(stated(TZD_HOUR_OFFSET_GROUP)) {
                    const bool west = match.str(TZD_HOUR_OFFSET_GROUP).front() == '-';
                    const int minutes = stated(TZD_MINUTE_OFFSET_GROUP) ? number(TZD_MINUTE_OFFSET_GROUP) : 0;
                    offset = number(TZD_HOUR_OFFSET_GROUP) * 60 + (west ? -minutes : minutes);
                }
                result.startDate.setHour(number(HOUR_NUMBER_GROUP));
                result.startDate.setMinute(number(MINUTE_NUMBER_GROUP));
                if(withSeconds)
                    result.startDate.setSeconds(number(SECOND_NUMBER_GROUP));
                result.startDate.setTimeZoneOffset(offset);
            }
'''),
dict(id='nearest-helper',props='C23 C09:MonthNameParser C14:MonthNameParser C10:MonthNameParser',span=(E+'ENMonthNameParser.hpp','                gregorian::date dRef{','                result.startDate.implyComponent("mday", day);\n                result.startDate.setMonth(month);\n                result.startDate.implyComponent',0),new='''                const gregorian::date today = ref.date();
                auto distance = [&today](const gregorian::date& d) { return std::abs((d - today).days()); };
                gregorian::date dRef{today.year(), month, day};
                const gregorian::date candidates[] = {dRef + gregorian::years(1), dRef - gregorian::years(1)};
                for(const auto& c : candidates) {
                    if(distance(c) < distance(dRef)) {
                        dRef = c;
                        break;
                    }
                }

'''),
dict(id='week-sign',props='C21 C09:Week C13:Week C14:Week C10:Week',span=(E+'ENWeekExperessionParser.hpp','            if(!match.str(3).empty()) {','            result.startDate.implyComponent("year"',0),new='''            const std::string digits = match.str(3), word = match.str(4), mode = match.str(2);
            if(!digits.empty())
                numberOfWeeks = std::stoi(digits);
            else if(!word.empty()) {
                const auto known = utils::INTEGER_WORDS.find(word);
                if(known == utils::INTEGER_WORDS.end())
                    return result;
                numberOfWeeks = known->second;
            }
            int direction = 0;
            if(mode.find("last") != std::string::npos)
                direction = -1;
            else if(mode.find("next") != std::string::npos)
                direction = 1;
            tmp += gregorian::weeks(direction * numberOfWeeks);

'''),
dict(id='later-helper',props='C19 C09:TimeLater C14:TimeLater',span=(E+'ENTimeLaterParser.hpp','            for(auto a : fragments) {','            gregorian::date date{date_t.date()};',0),new='''            for(const auto& [unit, amount] : fragments) {
                const int n = static_cast<int>(amount);
                if(unit == "year")
                    date_t += gregorian::years(n);
                else if(unit == "month")
                    date_t += gregorian::months(n);
                else if(unit == "week")
                    date_t += gregorian::days(7 * n);
                else if(unit == "day")
                    date_t += gregorian::days(n);
                else if(unit == "hour")
                    date_t += posix_time::hours(n);
                else if(unit == "minute")
                    date_t += posix_time::minutes(n);
                else if(unit == "second")
                    date_t += posix_time::seconds(n);
            }

'''),
]
