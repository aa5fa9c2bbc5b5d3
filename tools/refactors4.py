# Behaviour-preserving edits, fourth set: optional, string_view, array, tuple, enum class, constexpr tables, sets, do-while,
# structured bindings, members of other types, function objects, makers.
R='src/result.cpp'; RH='src/result.hpp'; P='src/parsers/parsers.cpp'; PH='src/parsers/parsers.hpp'; E='src/parsers/en/'; UC='src/utils/utils.cpp'; M='time.cpp'
OV='src/refiners/OverlapRemovalRefiner.hpp'; DT='src/refiners/en/ENMergeDateAndTimeRefiner.hpp'; DR='src/refiners/en/ENMergeDateRangeRefiner.hpp'
G='C09:%s C14:%s C10:%s C07:%s C08:%s C13:%s'
def g(c): return G.replace('%s',c)
CT=E+'ENCasualTimeParser.hpp'; CD=E+'ENCasualDateParser.hpp'; DL=E+'ENDeadlineFormatParser.hpp'; IS=E+'ENISOFormatParser.hpp'; DW=E+'ENDayOfTheWeekParser.hpp'; WK=E+'ENWeekExperessionParser.hpp'
TA=E+'ENTimeAgoFormatParser.hpp'; ME=E+'ENMonthNameMiddleEndianParser.hpp'; RL=E+'ENRelativeDateFormatParser.hpp'; TX=E+'ENTimeExpressionParser.hpp'
EDITS=[
dict(id='casual-enum',props='C15 C37 '+g('CasualDate'),edits=[(CD,'''    private:

    public:
        ENCasualDateParser() = default;''','''    private:
        enum class Kind { Now, Today, Tonight, LastNight, Tomorrow, Yesterday };

        static Kind classify(const std::string& word) {
            if(word.compare(0, 7, "tonight") == 0) return Kind::Tonight;
            if(word.rfind("tomorrow", 0) == 0 || word.rfind("tmr", 0) == 0) return Kind::Tomorrow;
            if(word.rfind("yesterday", 0) == 0) return Kind::Yesterday;
            if(word.rfind("last", 0) == 0) return Kind::LastNight;
            if(word == "now") return Kind::Now;
            return Kind::Today;
        }

    public:
        ENCasualDateParser() = default;''')],span=(CD,'            if(!text.find("tonight")) {','            result.startDate.setYear(',False),new='''            switch(classify(text)) {
                case Kind::Tonight:
                    result.startDate.implyComponent("hour", 22);
                    break;
                case Kind::Tomorrow:
                    if(ref.time_of_day().hours() > 0)
                        tmp = tmp + gregorian::days(1);
                    break;
                case Kind::Yesterday:
                    tmp = tmp - gregorian::days(1);
                    result.startDate.implyComponent("hour", ref.time_of_day().hours());
                    break;
                case Kind::LastNight:
                    result.startDate.implyComponent("hour", 0);
                    tmp -= gregorian::days(ref.time_of_day().hours() > 6 ? 1 : 0);
                    break;
                case Kind::Now: {
                    const posix_time::time_duration clock = ref.time_of_day();
                    result.startDate.setHour(clock.hours());
                    result.startDate.setMinute(clock.minutes());
                    result.startDate.setSeconds(clock.seconds());
                    break;
                }
                default:
                    break;
            }

'''),
dict(id='casualtime-array',props='C16 C37 '+g('CasualTime'),span=(CT,'            if(!subs.compare("afternoon")) {','            result.startDate.implyComponent("year"',False),new='''            struct Part { const char* name; int hour; };
            static constexpr Part PARTS[] = {
                {"morning", 6}, {"noon", 12}, {"afternoon", 15}, {"evening", 20}, {"night", 20}
            };
            for(const Part& part : PARTS) {
                if(subs == part.name) {
                    result.startDate.implyComponent("hour", part.hour);
                    break;
                }
            }

'''),
dict(id='casualtime-sv',props='C16 C37 '+g('CasualTime'),edits=[(CT,'#include "src/parsers/parsers.hpp"','#include <array>\n#include <string_view>\n#include "src/parsers/parsers.hpp"')],span=(CT,'            if(!subs.compare("afternoon")) {','            result.startDate.implyComponent("year"',False),new='''            using namespace std::string_view_literals;
            static constexpr std::array<std::pair<std::string_view, int>, 5> HOURS{{
                {"afternoon"sv, 15}, {"evening"sv, 20}, {"night"sv, 20}, {"morning"sv, 6}, {"noon"sv, 12}
            }};
            const std::string_view view{subs};
            const auto found = std::find_if(HOURS.begin(), HOURS.end(), [&view](const auto& p) { return p.first == view; });
            if(found != HOURS.end())
                result.startDate.implyComponent("hour", found->second);

'''),
dict(id='weekday-optional',props='C17 C37 '+g('DayOfWeek'),edits=[(DW,'#include "src/parsers/parsers.hpp"','#include <optional>\n#include "src/parsers/parsers.hpp"'),
 (DW,'''        parse::ParsedResult updateParsedComponent(''','''        static std::optional<gregorian::date> sameWeekday(const gregorian::date& day, unsigned short weekday) {
            if(day.day_of_week().as_number() == weekday)
                return day;
            return std::nullopt;
        }

        static gregorian::date towards(const gregorian::date& day, const gregorian::date& from, unsigned short weekday) {
            if(auto same = sameWeekday(from, weekday))
                return day;
            return weekday < from.day_of_week().as_number()
                   ? gregorian::first_day_of_the_week_before(weekday).get_date(day)
                   : gregorian::first_day_of_the_week_after(weekday).get_date(day);
        }

        parse::ParsedResult updateParsedComponent(''')],span=(DW,'            if(!modifier.compare("last") or','            if(resOffset.is_special())',False),new='''            if(modifier == "last" or modifier == "past") {
                resOffset = towards(start - gregorian::weeks(1), start, offset);
                start_fixed = true;
            }
            else if(modifier == "next") {
                resOffset = towards(start + gregorian::weeks(1), start, offset);
                start_fixed = true;
            }
            else if(modifier.empty() or modifier == "this") {
                resOffset = towards(start, start, offset);
            }

'''),
dict(id='deadline-tuple',props='C18 C37 '+g('Deadline'),edits=[(DL,'#include "src/parsers/parsers.hpp"','#include <optional>\n#include <tuple>\n#include "src/parsers/parsers.hpp"'),
 (DL,'''    private:

    public:''','''    private:
        // (known, whole units, half a unit)
        static std::tuple<bool, int, bool> amountOf(const std::string& word) {
            auto known = utils::INTEGER_WORDS.find(word);
            if(known != utils::INTEGER_WORDS.end())
                return std::make_tuple(true, static_cast<int>(known->second), false);
            if(word == "a" || word == "an")
                return std::make_tuple(true, 1, false);
            if(word.find("few") != std::string::npos)
                return std::make_tuple(true, 3, false);
            if(word.find("half") != std::string::npos)
                return std::make_tuple(true, 0, true);
            try {
                return std::make_tuple(true, std::stoi(word), false);
            }
            catch(const std::logic_error& e) {
                std::cerr << e.what() << std::endl;
            }
            return std::make_tuple(false, 0, false);
        }

    public:''')],span=(DL,'            std::string tmp = match.str(3);\n','            /* boost::date_time functions',False),new='''            const auto [known, whole, half] = amountOf(match.str(3));
            if(!known)
                return result;
            const float num = half ? 0.5f : static_cast<float>(whole);

'''),
dict(id='deadline-optional',props='C18 C37 '+g('Deadline'),edits=[(DL,'#include "src/parsers/parsers.hpp"','#include <optional>\n#include "src/parsers/parsers.hpp"'),
 (DL,'''    private:

    public:''','''    private:
        static std::optional<int> number(const std::string& digits) {
            try {
                return std::stoi(digits);
            }
            catch(std::logic_error& e) {
                std::cerr << e.what() << std::endl;
                return std::nullopt;
            }
        }

    public:'''),(DL,'''                try {
                    num = std::stoi(tmp);
                }
                catch (std::logic_error& e) {
                    std::cerr << e.what() << std::endl;
                    return result;
                }
''','''                const std::optional<int> value = number(tmp);
                if(!value.has_value())
                    return result;
                num = *value;
''')]),
dict(id='iso-fields',props='C22 C37 '+g('ISO'),span=(IS,'            int month = std::stoi(match.str(MONTH_NUMBER_GROUP));','            result.startDate.setYear(',False),new='''            const auto number = [&match](unsigned short group) -> int {
                return match[group].matched ? std::stoi(match[group].str()) : 0;
            };
            const auto between = [](int value, int low, int high) noexcept { return value >= low && value <= high; };

            const int month = number(MONTH_NUMBER_GROUP), day = number(DATE_NUMBER_GROUP);
            const bool ok = between(month, 1, 12) && between(day, 1, 31)
                            && between(number(HOUR_NUMBER_GROUP), 0, 24)
                            && between(number(MINUTE_NUMBER_GROUP), 0, 59)
                            && between(number(SECOND_NUMBER_GROUP), 0, 59);
            if(!ok)
                return result;

'''),
dict(id='iso-sign',props='C22 C37 '+g('ISO'),span=(IS,'                    int minuteOffset = 0;','                    result.startDate.setTimeZoneOffset(offset);',True),new='''                    const std::string zone = match.str(TZD_HOUR_OFFSET_GROUP);
                    const int sign = zone.front() == '-' ? -1 : 1;
                    const int zoneHours = std::stoi(zone.substr(1));
                    const int zoneMinutes = match[TZD_MINUTE_OFFSET_GROUP].length() > 0
                                            ? std::stoi(match.str(TZD_MINUTE_OFFSET_GROUP)) : 0;
                    result.startDate.setTimeZoneOffset(sign * (zoneHours * 60 + zoneMinutes));'''),
dict(id='scan-dowhile',props='C05 C06 C07 C08 C09 C10 C39:casual',span=(P,'    try {\n        std::regex_search(remainingText','    return results;\n}',False),new='''    const std::regex expression = getPattern();
    if(!std::regex_search(remainingText, match, expression))
        return results;

    do {
        idx = text.length() - remainingText.length() + match.position(0);

        try {
            parse::ParsedResult res = extract(remainingText, match, ref, idx);
            if(res.hasPossibleDates())
                results.emplace_back(res);
        }
        catch (const std::exception& err) {
            std::cerr << err.what() << std::endl;
            if(parse::ParsedResult().hasPossibleDates())
                results.emplace_back();
        }

        remainingText.assign(text, idx + match.length(0), std::string::npos);
    } while(std::regex_search(remainingText, match, expression));

'''),
dict(id='scan-optional',props='C05 C06 C07 C09 C10 C41',edits=[(P,'#include "parsers.hpp"','#include <optional>\n#include "parsers.hpp"'),(P,'''        parse::ParsedResult res{};
        try {
            res = extract(remainingText, match, ref, idx);
        }
        catch (std::exception& err) {
            // numbers or dates that can not be represented: no result
            std::cerr << err.what() << std::endl;
        }

        if(/*!strictMode or */res.hasPossibleDates()) {
            results.push_back(res);
        }
''','''        const auto attempt = [&]() -> std::optional<parse::ParsedResult> {
            try {
                return extract(remainingText, match, ref, idx);
            }
            catch (std::exception& err) {
                std::cerr << err.what() << std::endl;
            }
            return std::nullopt;
        };
        std::optional<parse::ParsedResult> res = attempt();
        if(res && res->hasPossibleDates())
            results.push_back(std::move(*res));
''')]),
dict(id='lower-unsigned',props='C08 C10:Casual C17 C15 C24:part 1',edits=[(UC,'''    std::transform(text.begin(), text.end(), text.begin(), ::tolower);
    return text;''','''    std::string lowered;
    lowered.reserve(text.size());
    for(const unsigned char c : text)
        lowered.push_back(static_cast<char>(std::tolower(c)));
    return lowered;''')]),
dict(id='components-array',props='C01 C02 C03 C04 C05 C15 C37:casual C29 C31 C39:casual',edits=[(RH,'''private:
    Components knownValues;
    Components impliedValues;
''','''private:
    struct Field {
        bool known = false, implied = false;
        int value = 0, hint = 0;
        int read() const { return known ? value : hint; }
        void state(int v) { known = true; value = v; implied = false; hint = 0; }
        void suggest(int v) { if(!known) { implied = true; hint = v; } }
    };
    enum Name { Year, Month, MonthDay, WeekDay, Hour, Minute, Second, Offset, Count };
    Field fields[Count];
    Field* byName(const std::string&);
''')],span=(R,'ParsedComponents::ParsedComponents() {','bool ParsedComponents::isPossibleDate() {',False),new='''ParsedComponents::ParsedComponents() = default;

ParsedComponents::ParsedComponents(const Components& comp) {
    for(const auto& entry : comp) {
        if(Field* f = byName(entry.first)) {
            f->known = entry.second.first;
            f->value = entry.second.second;
        }
    }
}

ParsedComponents::~ParsedComponents() = default;
ParsedComponents::ParsedComponents(const ParsedComponents& pc) = default;
ParsedComponents& ParsedComponents::operator=(const ParsedComponents& obj) = default;

ParsedComponents::Field* ParsedComponents::byName(const std::string& name) {
    static const char* const NAMES[Count] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
    for(int i = 0; i < Count; ++i)
        if(name == NAMES[i])
            return &fields[i];
    return nullptr;
}

posix_time::ptime ParsedComponents::date() {
    tm temp{};
    temp.tm_year = getYear() - 1900;
    temp.tm_mon  = getMonth() - 1;
    temp.tm_mday = get_mDay();
    temp.tm_wday = get_wDay();
    temp.tm_hour = getHour();
    temp.tm_min  = getMinute();
    temp.tm_sec  = getSeconds();
    return posix_time::ptime_from_tm(temp);
}

int ParsedComponents::getYear()  { return fields[Year].read(); }
int ParsedComponents::getMonth() { return fields[Month].read(); }
int ParsedComponents::get_mDay() { return fields[MonthDay].read(); }
int ParsedComponents::get_wDay() { return fields[WeekDay].read(); }
int ParsedComponents::getHour()  { return fields[Hour].read(); }
int ParsedComponents::getMinute(){ return fields[Minute].read(); }
int ParsedComponents::getSeconds() { return fields[Second].read(); }
int ParsedComponents::getTimeZoneOffset() { return fields[Offset].read(); }

void ParsedComponents::setYear(int v)  { fields[Year].state(v); }
void ParsedComponents::setMonth(int v) { fields[Month].state(v); }
void ParsedComponents::set_mDay(int v) { fields[MonthDay].state(v); }
void ParsedComponents::set_wDay(int v) { fields[WeekDay].state(v); }
void ParsedComponents::setHour(int v)  { fields[Hour].state(v); }
void ParsedComponents::setMinute(int v){ fields[Minute].state(v); }
void ParsedComponents::setSeconds(int v) { fields[Second].state(v); }
void ParsedComponents::setTimeZoneOffset(int v) { fields[Offset].state(v); }

void ParsedComponents::implyComponent(std::string comp, int value) {
    if(Field* f = byName(comp))
        f->suggest(value);
    else
        std::cerr << "Invalid option: " << comp << std::endl;
}

bool ParsedComponents::isCertain(std::string comp) {
    if(const Field* f = byName(comp))
        return f->known;
    std::cerr << "Invalid component: " << comp << std::endl;
    return false;
}

'''),
dict(id='components-optional',props='C01 C02 C03 C05 C16 C29 C38:casual',edits=[(RH,'#include <unordered_map>','#include <optional>\n#include <map>\n#include <unordered_map>'),(RH,'''private:
    Components knownValues;
    Components impliedValues;
''','''private:
    std::map<std::string, std::optional<int>> known, implied;
    int read(const std::string& name) const;
    void state(const std::string& name, int value);
''')],span=(R,'ParsedComponents::ParsedComponents() {','bool ParsedComponents::isPossibleDate() {',False),new='''ParsedComponents::ParsedComponents() {
    for(const char* name : {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"})
        known[name] = std::nullopt;
}

ParsedComponents::ParsedComponents(const Components& comp) : ParsedComponents() {
    for(const auto& [name, entry] : comp)
        if(entry.first)
            known[name] = entry.second;
}

ParsedComponents::~ParsedComponents() = default;
ParsedComponents::ParsedComponents(const ParsedComponents& pc) : known(pc.known), implied(pc.implied) {}
ParsedComponents& ParsedComponents::operator=(const ParsedComponents& obj) {
    if(this != &obj) {
        known = obj.known;
        implied = obj.implied;
    }
    return *this;
}

int ParsedComponents::read(const std::string& name) const {
    if(const auto it = known.find(name); it != known.end() && it->second)
        return *it->second;
    const auto it = implied.find(name);
    return it == implied.end() ? 0 : it->second.value_or(0);
}

void ParsedComponents::state(const std::string& name, int value) {
    known[name] = value;
    implied.erase(name);
}

posix_time::ptime ParsedComponents::date() {
    tm temp{};
    temp.tm_year = getYear() - 1900;
    temp.tm_mon  = getMonth() - 1;
    temp.tm_mday = get_mDay();
    temp.tm_wday = get_wDay();
    temp.tm_hour = getHour();
    temp.tm_min  = getMinute();
    temp.tm_sec  = getSeconds();
    return posix_time::ptime_from_tm(temp);
}

int ParsedComponents::getYear()  { return read("year"); }
int ParsedComponents::getMonth() { return read("month"); }
int ParsedComponents::get_mDay() { return read("mday"); }
int ParsedComponents::get_wDay() { return read("wday"); }
int ParsedComponents::getHour()  { return read("hour"); }
int ParsedComponents::getMinute(){ return read("min"); }
int ParsedComponents::getSeconds() { return read("sec"); }
int ParsedComponents::getTimeZoneOffset() { return read("tzoffset"); }

void ParsedComponents::setYear(int v)  { state("year", v); }
void ParsedComponents::setMonth(int v) { state("month", v); }
void ParsedComponents::set_mDay(int v) { state("mday", v); }
void ParsedComponents::set_wDay(int v) { state("wday", v); }
void ParsedComponents::setHour(int v)  { state("hour", v); }
void ParsedComponents::setMinute(int v){ state("min", v); }
void ParsedComponents::setSeconds(int v) { state("sec", v); }
void ParsedComponents::setTimeZoneOffset(int v) { state("tzoffset", v); }

void ParsedComponents::implyComponent(std::string comp, int value) {
    auto it = known.find(comp);
    if(it == known.end())
        std::cerr << "Invalid option: " << comp << std::endl;
    else if(!it->second.has_value())
        implied[comp] = value;
}

bool ParsedComponents::isCertain(std::string comp) {
    auto it = known.find(comp);
    if(it == known.end()) {
        std::cerr << "Invalid component: " << comp << std::endl;
        return false;
    }
    return it->second.has_value();
}

'''),
dict(id='tags-set',props='C03 C14:tags C14:Casual C29 C30 C31 C33',edits=[('src/utils/utils.hpp','typedef std::unordered_map<Modifiers, bool> Tags;','typedef std::set<Modifiers> Tags;'),('src/utils/utils.hpp','#include <map>','#include <map>\n#include <set>'),
 (R,'''    if(tags.count(tag_name) < 1)
        this->tags.insert({tag_name, true});''','''    tags.insert(tag_name);'''),(R,'    return tags.count(m) > 0 and tags[m];\n','    return tags.find(m) != tags.end();')]),
dict(id='tags-bits',props='C03 C14:tags C14:Casual C29 C30 C31 C33',edits=[('src/utils/utils.hpp','typedef std::unordered_map<Modifiers, bool> Tags;','typedef unsigned Tags;'),
 (R,'''    if(tags.count(tag_name) < 1)
        this->tags.insert({tag_name, true});''','''    tags |= 1u << static_cast<unsigned>(tag_name);'''),(R,'    return tags.count(m) > 0 and tags[m];\n','    return (tags >> static_cast<unsigned>(m)) & 1u;'),(RH,'    utils::Tags tags;','    utils::Tags tags = 0;')]),
dict(id='end-optional',props='C03 C04 C05 C28 C29 C30 C26:with seconds',edits=[(RH,'    bool __end;','    bool has_end{false};'),(R,'''    __end     = false;

    if(pr.end()) {
        endDate = pr.endDate;
        __end = true;
    }
''','''    has_end   = pr.has_end;
    if(has_end)
        endDate = pr.endDate;
'''),(R,'''    startDate = tmp1;
    __end = false;
''','''    startDate = tmp1;
'''),(R,'''    startDate = tmp;
    __end = false;
''','''    startDate = tmp;
'''),(R,'    return __end;','    return has_end;'),(R,'''    __end = true;
}''','''    has_end = true;
}'''),(R,'    __end     = pr.end();','    has_end   = pr.has_end;')]),
dict(id='render-lambda',props='C04 C31 C33 C39:casual',span=(R,'    struct tm date_start, date_end;','    return res;\n}',True),new='''    const bool shifted = getTag(utils::ExtractTimeZoneAbbreviation);
    const posix_time::minutes offset(shifted ? startDate.getTimeZoneOffset() : 0);

    const auto show = [&offset](ParsedComponents& c) {
        const gregorian::date day(c.getYear(), c.getMonth(), c.get_mDay());
        const posix_time::time_duration clock(c.getHour(), c.getMinute(), c.getSeconds());
        return posix_time::to_simple_string(posix_time::ptime(day, clock) + offset);
    };

    std::string res = show(startDate);
    if(end())
        res.append(" - ").append(show(endDate));
    return res;
}'''),
dict(id='week-array',props='C21 C37 '+g('Week'),span=(WK,'            int numberOfWeeks = 1;','            result.startDate.implyComponent("year"',False),new='''            const std::string digits = match.str(3), word = match.str(4), direction = match.str(2);
            int numberOfWeeks = 1;
            if(!digits.empty()) {
                numberOfWeeks = std::stoi(digits);
            }
            else if(!word.empty()) {
                const auto it = utils::INTEGER_WORDS.find(word);
                if(it == utils::INTEGER_WORDS.end())
                    return result;
                numberOfWeeks = static_cast<int>(it->second);
            }

            int step = 0;
            for(const auto& [name, sign] : std::initializer_list<std::pair<const char*, int>>{{"last", -1}, {"next", 1}}) {
                if(direction.find(name) != std::string::npos) {
                    step = sign;
                    break;
                }
            }
            tmp += gregorian::weeks(step * numberOfWeeks);

'''),
dict(id='ago-map',props='C19 C37:ago '+g('TimeAgo'),span=(TA,'            for(const auto& a : fragments) {','            gregorian::date date{date_t.date()};',False),new='''            const auto amount = [&fragments](const char* unit) -> int {
                const auto it = fragments.find(unit);
                return it == fragments.end() ? 0 : static_cast<int>(it->second);
            };
            try {
                date_t -= gregorian::days(amount("day"));
                date_t -= posix_time::hours(amount("hour"));
                date_t -= posix_time::minutes(amount("minute"));
                date_t -= gregorian::months(amount("month"));
                date_t -= posix_time::seconds(amount("second"));
                date_t -= gregorian::weeks(amount("week"));
                date_t -= gregorian::years(amount("year"));
            }
            catch (const std::out_of_range& e) {
                std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
                return result;
            }

'''),
dict(id='mme-set',props='C24 C37 '+g('MiddleEndian'),edits=[(ME,'''            // sanity check
            if(month == 0 or month > 12 or day == 0 or day > 31) {
                return result;
            }
''','''            const auto inside = [](unsigned value, unsigned limit) { return value >= 1u && value <= limit; };
            if(!inside(month, 12u) || !inside(day, 31u))
                return result;
'''),(ME,'''                match.str(DATE_TO_NUM_GROUP).empty() ?
                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                        endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));

                parse::ParsedComponents tmp{result.startDate};
                tmp.set_mDay(endDate);
                tmp.setHour(23);
                tmp.setMinute(59);
                result.endDate = tmp;
                result.makeEndDateValid();
''','''                if(const std::string digits = match.str(DATE_TO_NUM_GROUP); !digits.empty())
                    endDate = std::stoi(digits);
                else
                    endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP));

                result.makeEndDateValid();
                result.endDate = result.startDate;
                result.endDate.setMinute(59);
                result.endDate.setHour(23);
                result.endDate.set_mDay(endDate);
''')]),
dict(id='mme-nearest-algo',props='C24 C37 '+g('MiddleEndian'),edits=[(ME,'#include "src/parsers/parsers.hpp"','#include <array>\n#include <cstdlib>\n#include "src/parsers/parsers.hpp"'),(ME,'''                if(std::abs((nextY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                    // compare the durations returned
                    dRef = nextY;
                }
                else if(std::abs((prevY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                    dRef = prevY;
                }
''','''                const std::array<gregorian::date, 3> candidates{dRef, nextY, prevY};
                dRef = *std::min_element(candidates.begin(), candidates.end(),
                                         [&ref](const gregorian::date& a, const gregorian::date& b) {
                    return std::abs((a - ref.date()).days()) < std::abs((b - ref.date()).days());
                });
''')]),
dict(id='dt-structured',props='C29 C32 C40:ISO C14:tags',span=(DT,'        parse::ParsedResult prev, curr, tmp;\n','        return merged_result;',False),new='''        Result merged_result;
        size_t i = 0;
        parse::ParsedResult prev = r.front();
        while(++i < r.size()) {
            const bool dateFirst = isDateOnly(prev) and isTimeOnly(r[i]);
            const bool timeFirst = !dateFirst and isDateOnly(r[i]) and isTimeOnly(prev);
            if((dateFirst or timeFirst) and isAbleToMerge(t, prev, r[i])) {
                merged_result.push_back(dateFirst ? mergeResult(t, prev, r[i]) : mergeResult(t, r[i], prev));
                if(++i == r.size())
                    return merged_result;
            }
            else {
                merged_result.push_back(prev);
            }
            prev = r[i];
        }
        merged_result.push_back(prev);

'''),
dict(id='main-array',props='C33 C39:casual C41:ISO',span=(M,'    list<std::shared_ptr<parser::Parser> >  parsers','    if(results.empty())',False),new='''    parser::Parser* const parsers[] = {ctp.get(), dfp.get(), dow.get(), cdp.get(), mme.get(), tlp.get(),
                                       mnp.get(), tap.get(), txp.get(), iso.get(), hol.get(), wxp.get()};
    const std::vector<refiners::Refiner*> chain{olr.get(), tza.get(), mdt.get(), mdr.get()};

    str.assign(argv[1]);
    t = argc == 3 ? posix_time::time_from_string(argv[2]) : posix_time::second_clock::local_time();

    for(size_t i = 0; i < sizeof(parsers) / sizeof(parsers[0]); ++i) {
        for(auto& found : parsers[i]->execute(str, t))
            results.push_back(std::move(found));
    }

    const auto byPosition = [](const parse::ParsedResult& a, const parse::ParsedResult& b) -> bool {
        return a.getIndex() < b.getIndex();
    };
    std::sort(std::begin(results), std::end(results), byPosition);

    std::for_each(chain.cbegin(), chain.cend(), [&results, &str](refiners::Refiner* refiner) {
        results = refiner->refine(std::move(results), str);
    });

'''),
dict(id='main-template',props='C33 C39:casual',edits=[(M,'''int main(int argc, char* argv[]) {''','''template<class... Kinds>
std::vector<std::unique_ptr<parser::Parser>> makeParsers() {
    std::vector<std::unique_ptr<parser::Parser>> made;
    (made.push_back(std::make_unique<Kinds>()), ...);
    return made;
}

int main(int argc, char* argv[]) {'''),(M,'''    list<std::shared_ptr<parser::Parser> >  parsers  {ctp, dfp, dow, cdp, mme, tlp, mnp, tap, txp, iso, hol, wxp};''','''    auto parsers = makeParsers<parser::ENCasualTimeParser, parser::ENDeadlineFormatParser, parser::ENDayOfWeekParser,
        parser::ENCasualDateParser, parser::ENMonthNameMiddleEndianParser, parser::ENTimeLaterParser,
        parser::ENMonthNameParser, parser::ENTimeAgoFormatParser, parser::ENTimeExpressionParser,
        parser::ENISOFormatParser, parser::ENHolidayParser, parser::ENWeekExpressionParser>();''')]),
dict(id='relative-function',props='C20 C37 '+g('Relative'),edits=[(RL,'#include "src/parsers/parsers.hpp"','#include <functional>\n#include "src/parsers/parsers.hpp"')],span=(RL,'            // not this\n','            // time\n',False),new='''            const std::string unit = match.str(RELATIVE_WORD_GROUP);
            const bool forward = match.str(MODIFIER_WORD_GROUP) == "next";
            const bool whole = std::floor(num) == num;
            const int count = (forward ? 1 : -1) * static_cast<int>(num);
            const int sign = forward ? 1 : -1;
            const auto has = [&unit](const char* word) { return unit.find(word) != std::string::npos; };

            if(has("day") || has("week") || has("month") || has("year")) {
                result.setTag(utils::ENRelativeDateFormatParser);
                if(has("day") && !whole) {
                    tmpTime += posix_time::hours(sign * 12);
                    result.startDate.implyComponent("year", tmpTime.date().year());
                    result.startDate.implyComponent("month", tmpTime.date().month());
                    result.startDate.implyComponent("mday", tmpTime.date().day());
                    result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
                    result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
                    result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
                    return result;
                }
                std::function<void()> move;
                if(has("day"))        move = [&] { tmpDate += gregorian::days(count); };
                else if(has("week"))  move = [&] { tmpDate += whole ? gregorian::date_duration(7 * count) : gregorian::date_duration(3 * sign); };
                else if(has("month")) move = [&] { if(whole) tmpDate += gregorian::months(count); else tmpDate += gregorian::days(15 * sign); };
                else                  move = [&] { tmpDate += whole ? gregorian::months(12 * count) : gregorian::months(6 * sign); };
                move();
                result.startDate.implyComponent("year", tmpDate.year());
                result.startDate.implyComponent("month", tmpDate.month());
                result.startDate.implyComponent("mday", tmpDate.day());
                return result;
            }

'''),
]
