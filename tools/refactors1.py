"""Behaviour-preserving edits: the checks have to stay quiet on them."""
R='src/result.cpp'; RH='src/result.hpp'; P='src/parsers/parsers.cpp'; E='src/parsers/en/'; U='src/utils/utils.hpp'; UC='src/utils/utils.cpp'
F='src/refiners/'; FE='src/refiners/en/'; M='time.cpp'
PARS='C05 C06 C07 C08 C09 C10 C13 C14'
EDITS=[
dict(id='scan-suffix',props='C05 C06 C07 C09 C10',edits=[(P,'remainingText = text.substr(idx + match.length(0));','remainingText = match.suffix().str();')]),
dict(id='scan-consumed',props='C05 C06 C07 C08 C09 C10',edits=[(P,'    std::string remainingText = text;\n','    std::string remainingText = text;\n    size_t consumed = 0;\n'),
  (P,'idx = match.position(0) + text.length() - remainingText.length();','idx = consumed + match.position(0);'),
  (P,'remainingText = text.substr(idx + match.length(0));','consumed = idx + match.length(0);\n        remainingText = text.substr(consumed);')]),
dict(id='scan-for',props='C05 C06 C07 C08 C09 C10',edits=[(P,'''    try {
        std::regex_search(remainingText, match, getPattern());
    } // only throws if the regex can not be built
    catch (std::regex_error& err) {
        std::cerr << err.what() << std::endl;
    }

    while(!match.empty()) {''','''    const std::regex expression = getPattern();
    auto next = [&]() -> bool {
        try {
            return std::regex_search(remainingText, match, expression);
        }
        catch (const std::regex_error& err) {
            std::cerr << err.what() << std::endl;
            return false;
        }
    };

    for(bool found = next(); found; found = next()) {'''),(P,'''

        try {
            std::regex_search(remainingText, match, getPattern());
        } catch (std::regex_error& err) {
            std::cerr << err.what() << std::endl;
            return results;
        }
''','\n')]),
dict(id='scan-erase',props='C05 C06 C07 C09 C10',edits=[(P,'remainingText = text.substr(idx + match.length(0));','remainingText.erase(0, match.position(0) + match.length(0));')]),
dict(id='scan-continue',props='C05 C06 C07 C09',edits=[(P,'''        if(/*!strictMode or */res.hasPossibleDates()) {
            results.push_back(res);
        }
''','''        const bool usable = res.hasPossibleDates();
        if(usable)
            results.emplace_back(std::move(res));
''')]),
dict(id='lower-loop',props='C08 C10 C17 C15',edits=[(UC,'std::transform(text.begin(), text.end(), text.begin(), ::tolower);\n    return text;','for(char& c : text)\n        c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));\n    return text;')]),
dict(id='lower-index',props='C08 C10 C17 C15',edits=[(UC,'std::transform(text.begin(), text.end(), text.begin(), ::tolower);\n    return text;','for(size_t i = 0; i < text.size(); ++i)\n        text[i] = ::tolower(text[i]);\n    return text;')]),
dict(id='lower-lambda',props='C08 C10 C17',edits=[(UC,'std::transform(text.begin(), text.end(), text.begin(), ::tolower);\n    return text;','std::string lowered;\n    lowered.reserve(text.size());\n    for(const char c : text)\n        lowered.push_back(static_cast<char>(std::tolower(c)));\n    return lowered;')]),
dict(id='ordinal-helper',props='C24 C08 C10 C13 C09',edits=[(UC,'std::transform(value.begin(), value.end(), value.begin(), ::tolower);\n    return utils::ORDINAL_WORDS[value];','value = utils::toLowerCase(value);\n    const auto entry = utils::ORDINAL_WORDS.find(value);\n    return entry == utils::ORDINAL_WORDS.end() ? 0 : entry->second;')]),
dict(id='fragment-find',props='C19 C09 C10 C13',edits=[(UC,'''    if(std::regex_search(element, std::regex("hour", std::regex::icase)))
        fragments["hour"] += num;
    else if(std::regex_search(element, std::regex("min", std::regex::icase)))
        fragments["minute"] += num;
    else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
        fragments["second"] += num;
    else if(std::regex_search(element, std::regex("week", std::regex::icase)))
        fragments["week"] += num;
    else if(std::regex_search(element, std::regex("day", std::regex::icase)))
        fragments["day"] += num;
    else if(std::regex_search(element, std::regex("month", std::regex::icase)))
        fragments["month"] += num;
    else if(std::regex_search(element, std::regex("year", std::regex::icase)))
        fragments["year"] += num;
''','''    static const std::vector<std::pair<std::string, std::string> > units{
        {"hour", "hour"}, {"min", "minute"}, {"sec", "second"}, {"week", "week"}, {"day", "day"}, {"month", "month"}, {"year", "year"}};
    for(const auto& unit : units) {
        if(std::regex_search(element, std::regex(unit.first, std::regex::icase))) {
            fragments[unit.second] += num;
            break;
        }
    }
''')]),
dict(id='fragment-loop',props='C19 C09',edits=[(UC,'''    bool res = std::regex_search(remainingText, match, utils::PATTERN_TIME_UNIT);

    while (res) {
        fragments = utils::collectDateTimeFragment(match, fragments);
        remainingText = remainingText.substr(match[0].str().length());
        res = std::regex_search(remainingText, match, utils::PATTERN_TIME_UNIT);
    }
''','''    while (std::regex_search(remainingText, match, utils::PATTERN_TIME_UNIT)) {
        fragments = utils::collectDateTimeFragment(match, fragments);
        const std::size_t used = match.length(0);
        remainingText = remainingText.substr(used);
    }
''')]),
dict(id='getter-helper',props='C01 C02 C03 C04 C15',edits=[(RH,'    Components impliedValues;\n','    Components impliedValues;\n\n    int read(const std::string& name) {\n        return knownValues[name].first ? knownValues[name].second : impliedValues[name].second;\n    }\n')]+
 [(R,'''    if(knownValues["%s"].first)
        return knownValues["%s"].second;
    else
        return impliedValues["%s"].second;
'''%(n,n,n),'    return read("%s");\n'%n) for n in ('month','mday','wday','min','sec','tzoffset','hour')]),
dict(id='setter-helper',props='C01 C02 C03',edits=[(RH,'    Components impliedValues;\n','    Components impliedValues;\n\n    void store(const char* name, int value) {\n        auto& known = knownValues[name];\n        known = std::make_pair(true, value);\n        impliedValues[name] = {false, 0};\n    }\n')]+
 [(R,'''    knownValues["%s"].first    = true;
    knownValues["%s"].second   = %s;
    impliedValues["%s"].first  = false;
    impliedValues["%s"].second = 0;
'''%(n,n,v,n,n),'    store("%s", %s);\n'%(n,v)) for n,v in (('year','year'),('month','month'),('mday','day'),('wday','day'),('hour','hour'),('min','min'),('sec','sec'),('tzoffset','tzo'))]),
dict(id='certain-table',props='C01 C02 C03 C16',span=(R,'    // also requires implementation\n','    return false;\n}\n',1),new='''    const auto known = knownValues.find(comp);
    if(known != knownValues.end())
        return known->second.first;
    std::cerr << "Invalid component: " << comp << std::endl;
    return false;
}
'''),
dict(id='imply-table',props='C01 C02 C03 C15',span=(R,'    if(!comp.compare("year")) {\n        if (!knownValues','        std::cerr << "Invalid option: " << comp << std::endl;\n',1),new='''    static const std::vector<std::string> names{"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
    if(std::find(names.begin(), names.end(), comp) == names.end()) {
        std::cerr << "Invalid option: " << comp << std::endl;
        return;
    }
    if(knownValues[comp].first)
        return;
    impliedValues[comp].first = true;
    impliedValues[comp].second = value;
'''),
dict(id='imply-switch',props='C01 C02 C03',span=(R,'    if(!comp.compare("year")) {\n        if (!knownValues','        std::cerr << "Invalid option: " << comp << std::endl;\n',1),new='''    for(const char* name : {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"}) {
        if(comp != name)
            continue;
        if(!knownValues[name].first)
            impliedValues[name] = std::make_pair(true, value);
        return;
    }
    std::cerr << "Invalid option: " << comp << std::endl;
'''),
dict(id='copy-init-list',props='C03 C05 C28 C29',edits=[(R,'''ParsedComponents::ParsedComponents(const ParsedComponents& pc) {
    knownValues   = pc.knownValues;
    impliedValues = pc.impliedValues;
}''','''ParsedComponents::ParsedComponents(const ParsedComponents& pc)
    : knownValues(pc.knownValues), impliedValues(pc.impliedValues) {
}'''),(R,'''ParsedResult::ParsedResult(const ParsedResult& pr) {
    anchor    = pr.anchor;
    index     = pr.index;
    text      = pr.text;
    tags      = pr.tags;
    startDate = pr.startDate;
    __end     = false;

    if(pr.end()) {
        endDate = pr.endDate;
        __end = true;
    }
}''','''ParsedResult::ParsedResult(const ParsedResult& pr)
    : __end(pr.__end), anchor(pr.anchor), index(pr.index), text(pr.text), tags(pr.tags),
      startDate(pr.startDate), endDate(pr.endDate) {
}''')]),
dict(id='copy-default',props='C03 C05 C28 C29',edits=[(RH,'    ParsedComponents(const ParsedComponents&);','    ParsedComponents(const ParsedComponents&) = default;'),(R,'''ParsedComponents::ParsedComponents(const ParsedComponents& pc) {
    knownValues   = pc.knownValues;
    impliedValues = pc.impliedValues;
}''',''),(RH,'    ParsedResult(const ParsedResult& pr);','    ParsedResult(const ParsedResult& pr) = default;'),(R,'''ParsedResult::ParsedResult(const ParsedResult& pr) {
    anchor    = pr.anchor;
    index     = pr.index;
    text      = pr.text;
    tags      = pr.tags;
    startDate = pr.startDate;
    __end     = false;

    if(pr.end()) {
        endDate = pr.endDate;
        __end = true;
    }
}''','')]),
dict(id='assign-swap',props='C03 C28 C29',edits=[(R,'''    anchor    = pr.anchor;
    endDate   = pr.endDate;
    startDate = pr.startDate;
    text      = pr.text;
    index     = pr.index;
    tags      = pr.tags;
    __end     = pr.end();
''','''    std::swap(anchor, pr.anchor);
    std::swap(text, pr.text);
    std::swap(index, pr.index);
    tags.swap(pr.tags);
    startDate = std::move(pr.startDate);
    endDate = std::move(pr.endDate);
    __end = pr.__end;
''')]),
dict(id='render-helper',props='C04',edits=[(R,'std::string ParsedResult::toDate() {','''static posix_time::ptime moment(parse::ParsedComponents& when) {
    tm fields{};
    fields.tm_year = when.getYear() - 1900;
    fields.tm_mon  = when.getMonth() - 1;
    fields.tm_mday = when.get_mDay();
    fields.tm_hour = when.getHour();
    fields.tm_min  = when.getMinute();
    fields.tm_sec  = when.getSeconds();
    return posix_time::ptime_from_tm(fields);
}

std::string ParsedResult::toDate() {'''),(R,'''        date_end.tm_year = endDate.getYear() - 1900;
        date_end.tm_mon  = endDate.getMonth() - 1;
        date_end.tm_mday = endDate.get_mDay();
        date_end.tm_hour = endDate.getHour();
        date_end.tm_min  = endDate.getMinute();
        date_end.tm_sec  = endDate.getSeconds();

        posix_time::ptime ed = posix_time::ptime_from_tm(date_end);''','        posix_time::ptime ed = moment(endDate);'),(R,'''    date_start.tm_year = startDate.getYear() - 1900;
    date_start.tm_mon  = startDate.getMonth() - 1;
    date_start.tm_mday = startDate.get_mDay();
    date_start.tm_hour = startDate.getHour();
    date_start.tm_min  = startDate.getMinute();
    date_start.tm_sec  = startDate.getSeconds();

    posix_time::ptime st = posix_time::ptime_from_tm(date_start);''','    posix_time::ptime st = moment(startDate);')]),
dict(id='render-ptime',props='C04',edits=[(R,'posix_time::ptime st = posix_time::ptime_from_tm(date_start);','posix_time::ptime st(gregorian::date(startDate.getYear(), startDate.getMonth(), startDate.get_mDay()), posix_time::time_duration(startDate.getHour(), startDate.getMinute(), startDate.getSeconds()));')]),
dict(id='render-stream',props='C04',edits=[(R,'res += " - " + posix_time::to_simple_string(ed);','const std::string until = posix_time::to_simple_string(ed);\n        res.append(" - ").append(until);')]),
dict(id='possible-helper',props='C05 C09',edits=[(R,'''    try {
        gregorian::date(getYear(), getMonth(), get_mDay());
    }
    catch (std::out_of_range& e) {
        return false;
    }
''','''    const int y = getYear(), m = getMonth(), d = get_mDay();
    if(y < 1400 or y > 9999 or m < 1 or m > 12 or d < 1)
        return false;
    if(d > gregorian::gregorian_calendar::end_of_month_day(y, m))
        return false;
''')]),
dict(id='settag-map',props='C14 C29 C03',edits=[(R,'''    if(tags.count(tag_name) < 1)
        this->tags.insert({tag_name, true});''','    tags[tag_name] = true;'),(R,'return tags.count(m) > 0 and tags[m];','auto it = tags.find(m);\n    return it != tags.end() && it->second;')]),
dict(id='empty-expr',props='C28 C29 C30 C32',edits=[(R,'''    if(index == 0 and text.empty())
        return true;
    return false;''','    return index == 0 && text.length() == 0;')]),
]
