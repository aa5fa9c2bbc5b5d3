// Library idioms whose abstract evaluation is compared with their real behaviour (development aid: tools/modeltest/run.py).
#include <algorithm>
#include <array>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <deque>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <boost/date_time/gregorian/gregorian.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>

using namespace boost;
typedef std::string S;
static S n(long v) { return std::to_string(v); }

S t_minmax() { int a = 3, b = 7; return n(std::min(a, b)) + "," + n(std::max(a, b)) + "," + n(std::min({4, 2, 9})) + "," + n(std::clamp(12, 0, 10)); }
S t_accumulate() { std::vector<int> v{1, 2, 3}; return n(std::accumulate(v.begin(), v.end(), 10)) + n(std::accumulate(v.begin(), v.end(), 1, [](int a, int b) { return a * b; })); }
S t_count() { std::vector<int> v{1, 2, 3, 2}; return n(std::count(v.begin(), v.end(), 2)) + n(std::count_if(v.begin(), v.end(), [](int x) { return x > 1; })); }
S t_anyall() { std::vector<int> v{1, 2, 3}; return n(std::any_of(v.begin(), v.end(), [](int x) { return x == 2; })) + n(std::all_of(v.begin(), v.end(), [](int x) { return x > 1; })) + n(std::none_of(v.begin(), v.end(), [](int x) { return x > 5; })); }
S t_find() { std::vector<int> v{5, 6, 7}; auto i = std::find(v.begin(), v.end(), 6); auto j = std::find_if(v.begin(), v.end(), [](int x) { return x > 9; }); return n(i - v.begin()) + n(j == v.end()) + n(std::distance(v.begin(), i)); }
S t_bindings() { std::map<S, int> m{{"a", 1}, {"b", 2}}; S r; for(const auto& [k, v] : m) r += k + n(v); auto [x, y] = std::make_pair(3, S("z")); return r + n(x) + y; }
S t_ifinit() { std::map<S, int> m{{"a", 1}}; if(auto it = m.find("a"); it != m.end()) return "found" + n(it->second); return "none"; }
S t_optional() { std::optional<int> o; S r = o ? "y" : "n"; o = 4; r += n(o.has_value()) + n(*o) + n(o.value_or(9)); o.reset(); return r + n(o.value_or(9)); }
std::optional<int> opt(bool b) { if(b) return 5; return std::nullopt; }
S t_optret() { auto a = opt(true), b = opt(false); return n(a.value()) + n(b.has_value()) + n(b == std::nullopt); }
S t_tuple() { auto t = std::make_tuple(1, S("b"), 3); int a, c; S b; std::tie(a, b, c) = t; return n(a) + b + n(c) + n(std::get<2>(t)); }
S t_array() { std::array<int, 3> a{4, 5, 6}; int s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i]; return n(s) + n(a.front()) + n(a.back()); }
S t_carray() { static const char* const names[] = {"sun", "mon", "tue"}; S r; for(auto x : names) r += x; int k[] = {1, 2, 3}; return r + n(k[1]) + n(sizeof(k) / sizeof(k[0])); }
S t_struct() { struct E { const char* w; int v; }; static const E es[] = {{"a", 1}, {"b", 2}}; for(const auto& e : es) if(S("b") == e.w) return n(e.v); return "no"; }
S t_switch() { S r; for(int i = 0; i < 5; i++) switch(i) { case 1: r += "1"; break; case 2: case 3: r += "x"; default: r += "d"; } return r; }
S t_dowhile() { int i = 0; do { i += 2; } while(i < 5); return n(i); }
S t_ternary() { int a = 5; return (a > 3 ? "big" : "small") + n(a % 2 ? a / 2 : -a); }
S t_lambda() { int k = 3; auto f = [&k](int x) { k += x; return k; }; auto g = [=](int x) mutable { return k + x; }; f(2); return n(f(1)) + n(g(1)); }
S t_function() { std::function<int(int)> f = [](int x) { return x * 2; }; std::map<S, std::function<int(int, int)>> ops{{"+", [](int a, int b) { return a + b; }}, {"-", std::minus<int>()}}; return n(f(4)) + n(ops["+"](1, 2)) + n(ops.at("-")(5, 3)); }
S t_fnptr() { int (*f)(int) = std::abs; return n(f(-4)); }
S t_recursive() { std::function<int(int)> f = [&](int k) { return k < 2 ? 1 : k * f(k - 1); }; return n(f(4)); }
S t_strfind() { S s = "hello world"; return n(s.find("o")) + n(s.find('o', 5)) + n(s.rfind('o')) + n(s.find("zz") == S::npos) + n(s.find_first_of("wl")) + n(s.find_last_of("lo")) + n(s.find_first_not_of("he")) + n(s.find_last_not_of("dl")); }
S t_strops() { S s = "abc"; s.insert(1, "XY"); s.erase(0, 1); s.replace(0, 1, "qq"); s += 'z'; s.append("12").append(2, '!'); return s + n(s.compare("a")>0) + s.front() + s.back(); }
S t_substr() { S s = "hello"; return s.substr(1, 3) + s.substr(2) + n(s.at(1)) + n(s.length()) + n(s.empty()); }
S t_strview() { std::string_view v = "hello"; v.remove_prefix(1); return S(v.substr(0, 2)) + n(v.size()) + n(v == "ello"); }
S t_startswith() { S s = "next week"; return n(s.rfind("next", 0) == 0) + n(s.compare(0, 4, "next") == 0) + n(s.size() >= 4 && s.compare(s.size() - 4, 4, "week") == 0); }
S t_trim() { S s = "  a b  "; s.erase(0, s.find_first_not_of(' ')); s.erase(s.find_last_not_of(' ') + 1); return "[" + s + "]"; }
S t_eraseremove() { S s = "a.m."; s.erase(std::remove(s.begin(), s.end(), '.'), s.end()); std::vector<int> v{1, 2, 3, 2}; v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x == 2; }), v.end()); return s + n(v.size()); }
S t_reverse() { S s = "abc"; std::reverse(s.begin(), s.end()); std::vector<int> v{1, 2, 3}; std::reverse(v.begin(), v.end()); return s + n(v[0]) + S(s.rbegin(), s.rend()); }
S t_sort() { std::vector<int> v{3, 1, 2}; std::sort(v.begin(), v.end()); S r; for(int x : v) r += n(x); std::sort(v.begin(), v.end(), std::greater<int>()); for(int x : v) r += n(x); std::stable_sort(v.begin(), v.end(), [](int a, int b) { return a % 2 < b % 2; }); for(auto x : v) r += n(x); return r; }
S t_vecops() { std::vector<int> v; v.reserve(4); v.push_back(1); v.emplace_back(2); v.insert(v.begin(), 0); v.insert(v.end(), 3); v.erase(v.begin() + 1); v.pop_back(); S r; for(auto i = v.cbegin(); i != v.cend(); ++i) r += n(*i); v.resize(4); r += n(v.size()) + n(v.back()); v.clear(); return r + n(v.empty()); }
S t_vec2() { std::vector<S> v(3, "x"); std::vector<S> w{"a"}; v.swap(w); w.insert(w.end(), v.begin(), v.end()); S r; for(auto it = w.rbegin(); it != w.rend(); ++it) r += *it; return r + n(v == std::vector<S>{"a"}); }
S t_vecassign() { std::vector<int> a{1, 2}, b; b = a; a[0] = 9; b.assign(2, 7); std::vector<int> c(a.begin(), a.end()); std::copy(c.begin(), c.end(), std::back_inserter(b)); return n(b.size()) + n(b[2]) + n(c.at(1)); }
S t_vecmove() { std::vector<S> a{"p", "q"}; std::vector<S> b = std::move(a); b.push_back(std::move(b[0])); return n(b.size()) + b.back(); }
S t_adjacent() { std::vector<int> v{1, 1, 2, 3, 3}; v.erase(std::unique(v.begin(), v.end()), v.end()); return n(v.size()) + n(*std::max_element(v.begin(), v.end())) + n(*std::min_element(v.begin(), v.end(), [](int a, int b) { return a > b; })); }
S t_transform() { std::vector<int> v{1, 2}; std::vector<S> o; std::transform(v.begin(), v.end(), std::back_inserter(o), [](int x) { return n(x * x); }); std::vector<int> w(2); std::transform(v.begin(), v.end(), w.begin(), [](int x) { return x + 1; }); return o[0] + o[1] + n(w[1]); }
S t_copyif() { std::vector<int> v{1, 2, 3, 4}, o; std::copy_if(v.begin(), v.end(), std::back_inserter(o), [](int x) { return x % 2 == 0; }); return n(o.size()) + n(o[1]); }
S t_list() { std::list<int> l{1, 2}; l.push_front(0); std::deque<int> d{5}; d.push_front(4); S r; for(int x : l) r += n(x); return r + n(d.front()) + n(d.size()) + n(l.back()); }
S t_map() { std::map<S, int> m; m["a"] = 1; m["b"]++; m.insert({"c", 3}); m.emplace("d", 4); m.insert(std::make_pair(S("a"), 9)); m.erase("b"); return n(m.size()) + n(m.at("a")) + n(m.count("c")) + n(m.find("z") == m.end()) + m.begin()->first; }
S t_umap() { std::unordered_map<S, int> m{{"a", 1}}; auto r = m.try_emplace("a", 5); auto q = m.insert_or_assign("a", 7); return n(r.second) + n(q.second) + n(m["a"]); }
S t_mapiter() { std::map<int, S> m{{2, "b"}, {1, "a"}}; S r; for(auto it = m.begin(); it != m.end(); ++it) r += n(it->first) + (*it).second; return r; }
S t_mapmiss() { const std::map<S, int> m{{"a", 1}}; try { m.at("z"); } catch(const std::out_of_range&) { return "oor"; } return "?"; }
S t_lowerbound() { std::map<int, S> m{{1, "a"}, {5, "b"}}; auto i = m.lower_bound(3); std::vector<int> v{1, 3, 5}; auto j = std::lower_bound(v.begin(), v.end(), 4); return i->second + n(j - v.begin()) + n(std::binary_search(v.begin(), v.end(), 3)); }
S t_set() { std::set<S> s{"b", "a"}; s.insert("c"); auto p = s.insert("a"); S r; for(auto& x : s) r += x; std::unordered_set<int> u{1, 2}; return r + n(p.second) + n(u.count(2)) + n(s.find("q") == s.end()); }
S t_stoi() { size_t k = 0; int a = std::stoi("42abc", &k); long b = std::stol("-7"); int c = std::atoi("13x"); double d = std::stod("2.5"); return n(a) + n(k) + n(b) + n(c) + n(int(d * 2)) + n(std::strtol("99", nullptr, 10)); }
S t_stoithrow() { S r; try { std::stoi("x"); } catch(const std::invalid_argument&) { r += "ia"; } try { std::stoi("99999999999"); } catch(const std::out_of_range&) { r += "oor"; } try { S("a").substr(3); } catch(const std::exception&) { r += "sub"; } return r; }
S t_sstream() { std::ostringstream o; o << "a" << 1 << ' ' << 2.5; std::istringstream i("12 ab"); int k; S w; i >> k >> w; std::stringstream s; s << "q" << k; return o.str() + n(k) + w + s.str(); }
S t_setw() { std::ostringstream o; o << std::setw(2) << std::setfill('0') << 7 << ":" << std::setw(2) << 12; return o.str(); }
S t_getline() { std::istringstream i("a,b,c"); S x, r; while(std::getline(i, x, ',')) r += x + ";"; return r; }
S t_cctype() { S r; for(char c : S("aB3 _")) r += std::isdigit(c) ? 'd' : std::isupper(c) ? 'u' : std::isalpha(c) ? 'a' : std::isspace(c) ? 's' : '?'; return r; }
S t_toupper() { S s = "abC"; for(auto& c : s) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c))); return s; }
S t_regex() { std::smatch m; S s = "in 5 days"; bool b = std::regex_search(s, m, std::regex("(\\d+)\\s*(day|week)")); return n(b) + m[1].str() + m.str(2) + n(m.position(0)) + n(m.length(1)) + m.prefix().str() + "|" + m.suffix().str() + n(m.size()) + n(m[2].matched); }
S t_regexmatch() { return n(std::regex_match("abc", std::regex("[A-C]+", std::regex::icase))) + std::regex_replace(S("a-b"), std::regex("-"), "+"); }
S t_regexiter() { S s = "1a2b"; std::regex re("\\d"); S r; for(std::sregex_iterator i(s.begin(), s.end(), re), e; i != e; ++i) r += i->str() + n(i->position()); return r; }
S t_regextoken() { S s = "a b"; std::regex re("\\s+"); std::sregex_token_iterator i(s.begin(), s.end(), re, -1), e; S r; for(; i != e; ++i) r += i->str() + ";"; return r; }
S t_date() { gregorian::date d(2020, 2, 28); d += gregorian::days(2); gregorian::date e = d + gregorian::months(1); return n(d.year()) + "-" + n(d.month()) + "-" + n(d.day()) + " " + n(e.day()) + n(e.month().as_number()) + n(d.day_of_week()) + n(d.day_of_week().as_number()) + n(d.day_of_year()) + n((e - d).days()) + n(d < e) + n(d.week_number()); }
S t_date2() { gregorian::date d(2021, gregorian::Jan, 31); return gregorian::to_iso_extended_string(d + gregorian::months(1)) + gregorian::to_simple_string(d.end_of_month()) + gregorian::to_iso_string(d - gregorian::years(1)) + n(gregorian::gregorian_calendar::is_leap_year(2020)) + n(gregorian::gregorian_calendar::end_of_month_day(2021, 2)); }
S t_date3() { gregorian::date d; S r = n(d.is_not_a_date()); try { gregorian::date x(2021, 2, 30); } catch(const gregorian::bad_day_of_month&) { r += "bdm"; } try { gregorian::date x(1300, 2, 3); } catch(const std::out_of_range&) { r += "oor"; } auto y = d; y = gregorian::date(2021, 5, 5); auto q = y.year_month_day(); return r + n(q.year) + n(q.month) + n(q.day); }
S t_nth() { gregorian::nth_day_of_the_week_in_month t(gregorian::nth_day_of_the_week_in_month::fourth, gregorian::Thursday, gregorian::Nov); gregorian::last_day_of_the_week_in_month l(gregorian::Monday, gregorian::May); gregorian::first_day_of_the_week_after f(gregorian::Sunday); gregorian::first_day_of_the_week_before b(gregorian::Sunday); gregorian::date d(2021, 6, 2); return gregorian::to_iso_string(t.get_date(2021)) + gregorian::to_iso_string(l.get_date(2021)) + gregorian::to_iso_string(f.get_date(d)) + gregorian::to_iso_string(b.get_date(d)); }
S t_nextwd() { gregorian::date d(2021, 6, 2); return gregorian::to_iso_string(gregorian::next_weekday(d, gregorian::greg_weekday(gregorian::Monday))) + gregorian::to_iso_string(gregorian::previous_weekday(d, gregorian::greg_weekday(3))) + n(gregorian::days_until_weekday(d, gregorian::greg_weekday(1)).days()) + n(gregorian::days_before_weekday(d, gregorian::greg_weekday(1)).days()); }
S t_ptime() { posix_time::ptime p(gregorian::date(2020, 12, 31), posix_time::hours(23) + posix_time::minutes(59)); p += posix_time::seconds(61); auto t = p.time_of_day(); posix_time::ptime q = p - posix_time::hours(1); return posix_time::to_iso_string(p) + n(t.hours()) + n(t.minutes()) + n(t.seconds()) + posix_time::to_simple_string(q) + n((p - q).total_seconds()) + n(p > q) + n((p - q).hours()); }
S t_ptime2() { posix_time::ptime p(gregorian::date(2020, 1, 31), posix_time::time_duration(1, 2, 3)); p = p + gregorian::months(1); posix_time::time_duration d = p.time_of_day(); return posix_time::to_iso_extended_string(p) + n(d.total_seconds()) + posix_time::to_simple_string(d) + n(p.is_not_a_date_time()) + posix_time::to_iso_string(posix_time::time_from_string("2020-01-02 03:04:05")); }
S t_tm() { std::tm t = posix_time::to_tm(posix_time::ptime(gregorian::date(2021, 6, 2), posix_time::hours(5))); return n(t.tm_year + 1900) + n(t.tm_mon + 1) + n(t.tm_mday) + n(t.tm_hour) + n(t.tm_wday); }
S t_cast() { unsigned short u = 70000 % 65536; short s = static_cast<short>(40000); int i = static_cast<int>(3.9); unsigned char c = 300 & 255; return n(u) + n(s) + n(i) + n(c) + n(static_cast<long>(-1) < 0) + n(-7 / 2) + n(-7 % 3); }
S t_bit() { int a = 6; a |= 1; a &= ~2; a ^= 8; return n(a) + n(a << 2) + n(a >> 1) + n(!!a); }
S t_incdec() { int i = 3; int a = i++; int b = ++i; int c = i--; return n(a) + n(b) + n(c) + n(i); }
S t_comma() { int a = 0, b = 5; for(int i = 0, j = 3; i < j; ++i, --j) a += i + j; return n(a) + n((b = 2, b + 1)); }
S t_goto() { int i = 0; while(true) { if(++i > 3) break; if(i == 2) continue; } return n(i); }
enum class Kind { A, B };
static S kind(Kind k) { switch(k) { case Kind::A: return "A"; case Kind::B: return "B"; } return "?"; }
S t_enum() { return kind(Kind::B) + n(static_cast<int>(Kind::B)); }
struct P { int x{1}; int y = 2; P() = default; P(int a, int b) : x(a), y(b) {} int sum() const { return x + y; } P operator+(const P& o) const { return {x + o.x, y + o.y}; } bool operator<(const P& o) const { return x < o.x; } };
S t_class() { P a, b{3, 4}; P c = a + b; std::vector<P> v{b, a}; std::sort(v.begin(), v.end()); return n(c.sum()) + n(v[0].x) + n(a < b); }
struct B0 { virtual ~B0() = default; virtual S f() const { return "b"; } }; struct D0 : B0 { S f() const override { return "d" + B0::f(); } };
S t_virtual() { std::unique_ptr<B0> p(new D0()); std::shared_ptr<B0> q = std::make_shared<B0>(); std::vector<std::unique_ptr<B0>> v; v.push_back(std::make_unique<D0>()); const B0& r = *p; return p->f() + q->f() + v[0]->f() + r.f(); }
template <typename T> T twice(T x) { return x + x; }
template <typename F> int app(F f, int x) { return f(x); }
S t_template() { return n(twice(4)) + twice(S("q")) + n(app([](int x) { return x - 1; }, 5)); }
static S def(int a, int b = 2) { return n(a + b); }
S t_default() { return def(1) + def(1, 1); }
S t_pointer() { int a = 4; int* p = &a; *p += 1; int** q = &p; **q *= 2; const char* s = "xyz"; return n(a) + s[1] + n(std::strlen(s)) + n(std::strcmp(s, "xyz") == 0) + n(p != nullptr); }
S t_ref() { std::vector<int> v{1, 2}; int& r = v[1]; r = 8; auto& w = v; w.push_back(3); return n(v[1]) + n(v.size()); }
S t_swap() { int a = 1, b = 2; std::swap(a, b); S x = "p", y = "q"; x.swap(y); std::vector<S> v{"u", "v"}; std::iter_swap(v.begin(), v.begin() + 1); return n(a) + x + v[0]; }
S t_round() { return n(std::round(2.5)) + n(std::floor(2.7)) + n(std::ceil(2.1)) + n(std::abs(-3)) + n(std::fabs(-2.0)) + n(int(std::pow(2, 3))) + n(std::lround(3.4)) + n(std::trunc(-2.5)); }
S t_div() { auto d = std::div(17, 5); return n(d.quot) + n(d.rem); }
S t_fill() { std::vector<int> v(3); std::fill(v.begin(), v.end(), 4); std::iota(v.begin(), v.end(), 1); return n(v[2]) + n(std::equal(v.begin(), v.end(), v.begin())); }
S t_nextprev() { std::vector<int> v{1, 2, 3}; auto i = std::next(v.begin()); auto j = std::prev(v.end()); auto k = v.begin(); std::advance(k, 2); return n(*i) + n(*j) + n(*k) + n(j - i); }
S t_variant() { std::variant<int, S> v = 3; S r = n(std::get<int>(v)) + n(v.index()); v = S("s"); return r + std::get<S>(v) + n(std::holds_alternative<S>(v)); }
S t_initlist() { S r; for(const auto& w : {"a", "b"}) r += w; for(S x : std::vector<S>{"c"}) r += x; return r; }
S t_constexpr() { constexpr int k = 3 * 4; static constexpr std::array<const char*, 2> a{"x", "y"}; return n(k) + a[1]; }
S t_pairvec() { std::vector<std::pair<S, int>> v{{"a", 1}, {"b", 2}}; for(auto& p : v) p.second *= 10; auto it = std::find_if(v.begin(), v.end(), [](const std::pair<S, int>& p) { return p.first == "b"; }); return n(it->second) + n(it - v.begin()); }
S t_nested() { std::map<S, std::vector<int>> m; m["a"].push_back(1); m["a"].push_back(2); m["b"]; return n(m["a"].size()) + n(m.size()); }
S t_trycatch() { S r; try { throw std::runtime_error("boom"); } catch(std::logic_error&) { r = "l"; } catch(std::exception& e) { r = e.what(); } try { try { throw 3; } catch(...) { throw; } } catch(int k) { r += n(k); } return r; }
struct G { S* s; ~G() { *s += "!"; } };
S t_raii() { S r = "a"; { G g{&r}; r += "b"; } return r; }
S t_shadow() { int i = 1; { int i = 5; i++; } for(int i = 0; i < 2; ++i) {} return n(i); }
S t_chars() { S s = "a1"; char c = s[0]; return n(c - 'a') + n(s[1] - '0') + S(1, c) + S(3, '-') + c + n(c == 'a'); }
S t_strcmp() { S a = "abc", b = "abd"; return n(a < b) + n(a != b) + n(a.compare(b) < 0) + n(std::max(a, b) == b); }
S t_strnum() { return std::to_string(2.0).substr(0, 3) + std::to_string(7u) + std::to_string(-3L); }
S t_reversefor() { S r; for(int i = 3; i-- > 0;) r += n(i); std::vector<int> v{1, 2}; for(size_t i = v.size(); i > 0; --i) r += n(v[i - 1]); return r; }
S t_partition() { std::vector<int> v{1, 2, 3, 4}; auto i = std::stable_partition(v.begin(), v.end(), [](int x) { return x % 2 == 0; }); return n(i - v.begin()) + n(v[0]) + n(v[2]); }
S t_search() { S a = "xhello", b = "HELLO"; auto it = std::search(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return std::toupper(x) == y; }); return n(it - a.begin()); }
S t_mismatch() { S a = "abc", b = "abd"; return n(std::equal(a.begin(), a.begin() + 2, b.begin())) + n(std::mismatch(a.begin(), a.end(), b.begin()).first - a.begin()) + n(std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end())); }
S t_rotate() { std::vector<int> v{1, 2, 3}; std::rotate(v.begin(), v.begin() + 1, v.end()); return n(v[0]) + n(v[2]); }
S t_join() { std::vector<S> v{"a", "b", "c"}; S r; for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += v[i]; } return r; }
S t_emplaceback() { std::vector<std::pair<S, int>> v; v.emplace_back("k", 2); auto& b = v.emplace_back("z", 3); return v[0].first + n(b.second); }
S t_chain() { return S("a").append("b").substr(1) + S("xy").replace(0, 1, "z"); }
S t_static() { static int k = 4; const int& r = k; return n(r + 1); }
S t_literal() { using namespace std::string_literals; auto s = "ab"s; return s + R"(x\y)" + "c" "d"; }
S t_ulong() { unsigned long a = 5, b = 7; long d = static_cast<long>(a) - static_cast<long>(b); return n(d) + n(a - b > 100) + n(S::npos > 1000); }
// ---- language features a rewrite may use
struct Opt { int v = 0; bool set = false; explicit operator bool() const { return set; } operator int() const { return v; } int& operator[](int) { return v; } };
S u_conv() { Opt o; if(!o) { o[0] = 4; o.set = true; } return n(o ? static_cast<int>(o) + 1 : 0); }
template <int N> int addn(int x) { if constexpr(N > 2) return x + N; else return x; }
S u_constexprif() { return n(addn<3>(1)) + n(addn<1>(1)); }
struct Range { int lo, hi; bool has(int x) const noexcept { return lo <= x && x <= hi; } static Range of(int a) { return {a, a + 2}; } };
S u_aggregate() { Range r{1, 3}; auto q = Range::of(5); auto [a, b] = q; const Range* p = &q; return n(r.has(2)) + n(p->has(9)) + n(a) + n(b); }
namespace inner { constexpr int table[][2] = {{1, 2}, {3, 4}}; inline int at(int i, int j) { return table[i][j]; } const std::map<S, std::pair<int, int>> words{{"am", {0, 12}}, {"pm", {12, 24}}}; }
S u_table() { auto it = inner::words.find("pm"); return n(inner::at(1, 0)) + n(it->second.first) + n(inner::words.at("am").second); }
S u_retlambda() { auto mk = [](int k) { return [k](int x) { return x + k; }; }; return n(mk(3)(4)); }
S u_mutref() { auto add = [](std::vector<int>& v, int x) { v.push_back(x); }; std::vector<int> v; add(v, 1); add(v, 2); return n(v.size()); }
struct Base { int k; explicit Base(int a) : k(a) {} virtual ~Base() {} virtual int get() const { return k; } int twice() const { return 2 * get(); } };
struct Der : Base { using Base::Base; int get() const override { return Base::get() + 1; } };
S u_inherit() { Der d(4); Base& b = d; auto* p = dynamic_cast<Der*>(&b); return n(b.twice()) + n(p != nullptr); }
S u_memfn() { Range r{1, 2}; bool (Range::*f)(int) const = &Range::has; int Range::*m = &Range::lo; return n((r.*f)(2)) + n(r.*m); }
S u_ternlv() { int a = 1, b = 2; (a > b ? a : b) = 9; return n(b); }
S u_dowhile0() { S r; do { r += "x"; if(r.size() == 1) break; r += "y"; } while(false); return r; }
S u_optstruct() { std::optional<Range> o = Range{1, 2}; if(o && o->has(1)) return n(o->hi); return "n"; }
static std::pair<int, bool> parse(const S& s) { if(s.empty()) return {0, false}; return {std::stoi(s), true}; }
S u_pairret() { auto [v, ok] = parse("12"); auto p = parse(""); if(const auto& [x, y] = parse("3"); y) v += x; return n(v) + n(ok) + n(p.second); }
S u_iterwhile() { S s = "a1b2", r; for(auto it = s.begin(); it != s.end();) { if(std::isdigit(*it)) it = s.erase(it); else { r += *it; ++it; } } return r + s; }
S u_arrpair() { static const std::array<std::pair<const char*, int>, 2> t{{{"a", 1}, {"b", 2}}}; for(const auto& [w, v] : t) if(S(w) == "b") return n(v); return ""; }
S u_nestedvec() { std::vector<std::vector<int>> v{{1, 2}, {3}}; int s = 0; for(const auto& r : v) for(int x : r) s += x; return n(s) + n(v[0].size()); }
struct Counter { static int count; Counter() { ++count; } };
int Counter::count = 0;
S u_ops() { struct V { int x; V& operator+=(int d) { x += d; return *this; } V operator-() const { return {-x}; } bool operator==(const V& o) const { return x == o.x; } }; V a{2}; a += 3; return n((-a).x) + n(a == V{5}); }
S u_friend() { gregorian::date a(2020, 1, 1), b(2020, 1, 2); auto later = [](auto x, auto y) { return x < y ? y : x; }; return n(later(a, b).day()); }
S u_varargs() { auto any = [](int x, std::initializer_list<int> l) { return std::find(l.begin(), l.end(), x) != l.end(); }; return n(any(3, {1, 3})) + n(any(4, {1})); }
template <typename... A> int sum(A... a) { return (0 + ... + a); }
S u_fold() { return n(sum(1, 2, 3)); }
S u_shortcircuit() { int k = 0; auto f = [&] { ++k; return true; }; bool b = false && f(); b = true || f(); b |= f(); return n(k) + n(b); }
S u_charswitch() { S r; for(char c : S("am?")) { switch(c) { case 'a': r += "A"; continue; case 'm': r += "M"; break; default: return r + "?"; } r += "-"; } return r; }
S u_until() { S s = "x,y"; auto p = s.find(','); S a = p == S::npos ? s : s.substr(0, p), b = p != S::npos ? s.substr(p + 1) : ""; return a + "|" + b; }
S u_split() { S s = "a b c", w, r; std::istringstream i(s); std::vector<S> v; while(i >> w) v.push_back(w); for(auto it = v.crbegin(); it != v.crend(); ++it) r += *it; return r; }
S u_splitit() { S s = "p q"; std::istringstream i(s); std::vector<S> v{std::istream_iterator<S>(i), std::istream_iterator<S>()}; return n(v.size()); }
S u_sizes() { return n(sizeof(int)) + n(std::numeric_limits<int>::max() > 5) + n(INT32_MAX > 3); }
S u_boolarith() { int c = 0; c += (3 > 2); c += true; return n(c + (1 == 1)); }
S u_uniqueptr() { auto p = std::make_unique<int>(4); auto q = std::move(p); return n(*q) + n(p == nullptr) + n(!!q); }
S u_sharedvec() { std::vector<std::shared_ptr<Base>> v; v.push_back(std::make_shared<Der>(2)); v.emplace_back(new Base(3)); int s = 0; for(const auto& p : v) s += p->get(); return n(s); }
S u_mapfn() { static const std::map<S, int (*)(int)> f{{"d", [](int x) { return 2 * x; }}}; auto it = f.find("d"); return n(it != f.end() ? it->second(4) : 0); }
S u_enumarr() { enum { A, B, C }; int k[3] = {}; k[B] = 4; return n(k[A] + k[B] + C); }
S u_capthis() { struct W { int k = 2; int go(int x) { auto f = [this, x] { return k * x; }; return f(); } } w; return n(w.go(5)); }
S u_trimright() { S s = "ab  "; while(!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) s.pop_back(); return s + n(s.size()); }
S u_findifs() { S s = "  ab"; auto i = std::find_if(s.begin(), s.end(), [](unsigned char c) { return !std::isspace(c); }); return S(i, s.end()) + n(std::all_of(s.begin(), s.end(), [](char c) { return c == ' ' || std::isalpha(c); })); }
S u_countchars() { S s = "a.b.c"; return n(std::count(s.begin(), s.end(), '.')) + n(s.find_last_of('.')); }
S u_static_local() { auto f = []() -> const std::map<S, int>& { static const std::map<S, int> m{{"x", 4}}; return m; }; return n(f().at("x")); }
S u_gotoend() { int k = 0; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { if(j == 2) goto done; ++k; } done: return n(k); }
S w_wdrange() { gregorian::date_period p(gregorian::date(2020, 1, 1), gregorian::date(2020, 1, 3)); int k = 0; for(gregorian::day_iterator d(p.begin()); *d < p.end(); ++d) ++k; return n(k); }
S u_span() { gregorian::date a(2020, 1, 1); gregorian::date_duration d(5); a = a + d; a -= gregorian::weeks(1); gregorian::greg_weekday w = a.day_of_week(); return n(a.day()) + n(w == gregorian::Monday) + n(w.as_number()); }
S u_ymdtm() { std::tm t{}; t.tm_year = 120; t.tm_mon = 1; t.tm_mday = 3; t.tm_hour = 4; auto p = posix_time::ptime_from_tm(t); return n(p.date().month()) + n(p.time_of_day().hours()); }
S u_monthenum() { gregorian::date d(2020, gregorian::Feb, 3); auto m = d.month(); gregorian::greg_month g(4); return n(m == gregorian::Feb) + n(g.as_enum()) + n(gregorian::date(2020, g, 1).month()); }
S u_durcmp() { posix_time::time_duration a = posix_time::hours(1), b = posix_time::minutes(60); return n(a == b) + n((a + b).hours()) + n((a * 2).total_seconds()) + n(a.is_negative()); }
S u_ptcmp() { posix_time::ptime a(gregorian::date(2020, 1, 1)), b = a + gregorian::days(1); return n(a < b) + n(b.date() > a.date()) + n((b - a).hours()) + n(std::max(a, b) == b); }
S u_moved() { S a = "long enough to be on the heap, really"; S b = std::move(a); std::vector<S> v; S c = "x"; v.push_back(std::move(c)); S d = "q"; v.push_back(d); S e; e = std::move(d); return n(a.size()) + n(c.size()) + v[0] + v[1] + n(d.size()) + e; }
struct M { S t = "t"; std::vector<int> v{1}; int k = 3; };
S u_movedobj() { M a; M b = std::move(a); std::vector<M> w; w.push_back(std::move(b)); return n(a.t.size()) + n(a.v.size()) + n(a.k) + n(b.t.size()) + n(w[0].v.size()) + w[0].t; }
S u_genpred() { static const std::array<std::pair<std::string_view, int>, 2> t{{{"a", 1}, {"b", 2}}}; S w = "b"; const auto i = std::find_if(t.begin(), t.end(), [&w](const auto& p) { return p.first == w; }); return n(i != t.end() ? i->second : 9); }
S u_gentwo() { auto twice = [](const auto& x) { return x + x; }; return twice(S("ab")) + n(twice(3)); }
S u_gensort() { std::vector<std::pair<S, int>> v{{"x", 3}, {"y", 1}}; std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return a.second < b.second; }); return v[0].first; }
S u_genforward() { auto call = [](auto&& f, int x) { return f(x); }; return n(call([](int y) { return y * 3; }, 4)); }
S u_boolret() { auto ok = [](int v, int lo, int hi) noexcept { return v >= lo && v <= hi; }; return n(ok(3, 1, 5)) + n(ok(0, 1, 5)); }
S u_bitset() { unsigned t = 0; t |= 1u << 3; t |= 1u << 0; return n(t) + n((t >> 3) & 1u) + n((t >> 1) & 1u); }
S u_setenum() { enum E { A, B, C }; std::set<E> s; s.insert(B); s.insert(B); s.insert(A); return n(s.size()) + n(s.find(C) == s.end()) + n(*s.begin()); }
S u_emplaceback() { std::vector<M> v; v.emplace_back(); v.back().k = 9; return n(v.size()) + n(v.front().k); }
S u_enumindex() { struct F { bool known = false; int v = 0; int read() const { return known ? v : 0; } void state(int x) { known = true; v = x; } }; struct W2 { enum N { Y, D, Count }; F f[Count]; F* by(const S& s) { static const char* const names[Count] = {"y", "d"}; for(int i = 0; i < Count; ++i) if(s == names[i]) return &f[i]; return nullptr; } }; W2 a; a.by("d")->state(4); W2 b = a; b.f[W2::D].state(5); return n(a.f[W2::D].read()) + n(b.by("d")->read()) + n(a.by("q") == nullptr); }
S u_optmap() { std::map<S, std::optional<int>> m; for(const char* k : {"a", "b"}) m[k] = std::nullopt; m["a"] = 3; m.erase("b"); const auto it = m.find("a"); return n(it != m.end() && it->second ? *it->second : 0) + n(m.count("b")) + n(m["z"].value_or(7)); }
S u_minelem() { const std::array<int, 3> c{4, 2, 2}; auto i = std::min_element(c.begin(), c.end(), [](int a, int b) { return a < b; }); return n(i - c.begin()); }
S u_tuplebind() { auto f = [](bool b) { return b ? std::make_tuple(true, 3, S("x")) : std::make_tuple(false, 0, S()); }; const auto [ok, k, s] = f(true); auto [a, b, c] = f(false); return n(ok) + n(k) + s + n(a) + c; }
S u_stdfunction() { std::function<void()> f; int k = 1; if(k) f = [&] { k += 2; }; f(); return n(k) + n(static_cast<bool>(f)); }
template <class... K> std::vector<std::unique_ptr<Base>> makeAll() { std::vector<std::unique_ptr<Base>> v; (v.push_back(std::make_unique<K>(2)), ...); return v; }
S u_packs() { auto v = makeAll<Base, Der>(); return n(v.size()) + n(v[0]->get()) + n(v[1]->get()); }
S u_sizeofarr() { int t[] = {1, 2, 3}; int s = 0; for(size_t i = 0; i < sizeof(t) / sizeof(t[0]); ++i) s += t[i]; for(auto p = std::begin(t); p != std::end(t); ++p) s += *p; return n(s); }
S u_switchscope() { int k = 2; S r; switch(k) { case 1: r = "a"; break; case 2: { const int q = k * 2; r = n(q); [[fallthrough]]; } default: r += "d"; } return r; }
S u_ifinit() { std::map<S, int> m{{"a", 1}}; if(auto it = m.find("a"); it != m.end() && it->second) return "y"; else return "n"; }
S u_compare7() { S s = "tonight"; return n(s.compare(0, 7, "tonight") == 0) + n(s.rfind("to", 0) == 0) + n(s.rfind("ni", 0) == 0) + n(s.find("x") == S::npos); }
S u_assignsub() { S t = "abcdef", r; r.assign(t, 2, S::npos); S q; q.append(" - ").append(t.substr(0, 1)); return r + q; }
S u_initpairs() { S d = "next"; int step = 0; for(const auto& [name, sign] : std::initializer_list<std::pair<const char*, int>>{{"last", -1}, {"next", 1}}) if(d.find(name) != S::npos) { step = sign; break; } return n(step); }
S u_moverange() { std::vector<S> a{"x", "y"}, b; for(auto& s : a) b.push_back(std::move(s)); b.insert(b.end(), std::make_move_iterator(a.begin()), std::make_move_iterator(a.end())); return n(b.size()) + b[1]; }
S u_condduration() { gregorian::date d(2020, 1, 10); bool w = true; d += w ? gregorian::date_duration(7 * 2) : gregorian::date_duration(3); d -= gregorian::days(w ? 1 : 0); posix_time::ptime p(d, posix_time::time_duration(1, 2, 3)); p += posix_time::minutes(w ? 60 : 0); return n(d.day()) + n(p.time_of_day().hours()); }
#include <charconv>
S u_fromchars() { S s = "42x"; int v = 0; auto r = std::from_chars(s.data(), s.data() + s.size(), v); return n(v) + n(r.ec == std::errc()); }
S u_sscanf() { int a = 0, b = 0; int k = std::sscanf("12:34", "%d:%d", &a, &b); return n(k) + n(a) + n(b); }
S u_snprintf() { char b[16]; std::snprintf(b, sizeof b, "%02d:%02d", 3, 4); return b; }
S u_bind() { auto f = std::bind([](int a, int b) { return a - b; }, std::placeholders::_2, 3); return n(f(1, 10)); }
S u_invoke() { return n(std::invoke([](int a) { return a + 1; }, 3)) + n(std::apply([](int a, int b) { return a * b; }, std::make_tuple(3, 4))); }
S u_visit() { std::variant<int, S> v = 3; S r = std::visit([](const auto& x) -> S { if constexpr(std::is_same_v<std::decay_t<decltype(x)>, int>) return n(x); else return x; }, v); v = S("q"); return r + (std::holds_alternative<S>(v) ? std::get<S>(v) : ""); }
S u_equalrange() { std::multimap<S, int> m{{"a", 1}, {"a", 2}, {"b", 3}}; auto [f, l] = m.equal_range("a"); int s = 0; for(; f != l; ++f) s += f->second; return n(s); }
S u_stoipos() { size_t p = 0; int v = std::stoi("12abc", &p); return n(v) + n(p) + n(std::stoi("077", nullptr, 10)); }
S u_atoi() { return n(std::atoi("12")) + n(std::atoi("x")); }
S u_strview() { auto f = [](std::string_view v) { v.remove_prefix(1); v.remove_suffix(1); return S(v); }; S s = "abcd"; return f(s) + f("xyz") + n(std::string_view("abc").substr(1).size()); }
S u_iife() { const int v = [] { for(int i = 0; i < 5; ++i) if(i * i > 5) return i; return -1; }(); return n(v); }
S u_recursive() { std::function<int(int)> f = [&](int k) { return k < 2 ? 1 : k * f(k - 1); }; return n(f(5)); }
S u_swap3() { int a = 1, b = 2; std::swap(a, b); std::tie(a, b) = std::make_pair(b, a); return n(a) + n(b); }
S u_minmaxp() { int x5 = 5, x3 = 3; auto [lo, hi] = std::minmax(x5, x3); auto p = std::minmax({4, 1, 9}); return n(lo) + n(hi) + n(p.first); }
S u_mapbracket() { std::map<S, std::vector<int>> m; m["a"].push_back(2); m["a"].emplace_back(3); return n(m["a"].size()) + n(m.size()) + n(m.begin()->second.back()); }
S u_strnum() { std::ostringstream o; o << std::setw(2) << std::setfill('0') << 7 << ':' << 5; return o.str(); }
S u_strcmp() { const char* a = "am"; return n(std::strcmp(a, "am") == 0) + n(std::strlen(a)) + n(std::strchr(a, 'm') != nullptr); }
S u_ctor() { S a(3, 'x'), b("abc", 2), c(a.begin(), a.begin() + 2), d{a, 1}; return a + b + c + d; }
S u_indexloop() { S s = "a,b"; for(std::size_t i = s.size(); i-- > 0;) if(s[i] == ',') s.replace(i, 1, "; "); return s; }
S u_datecalc() { gregorian::nth_day_of_the_week_in_month t(gregorian::nth_day_of_the_week_in_month::third, gregorian::Monday, gregorian::Jan); gregorian::last_day_of_the_week_in_month l(gregorian::Monday, gregorian::May); return n(t.get_date(2020).day()) + n(l.get_date(2020).day()); }
S u_nextwd() { gregorian::date d(2020, 1, 1); return n(gregorian::next_weekday(d, gregorian::greg_weekday(gregorian::Friday)).day()) + n(gregorian::previous_weekday(d, gregorian::greg_weekday(gregorian::Friday)).day()) + n(gregorian::days_until_weekday(d, gregorian::greg_weekday(1)).days()) + n(gregorian::days_before_weekday(d, gregorian::greg_weekday(1)).days()); }
S u_eom() { gregorian::date d(2020, 2, 3); return n(d.end_of_month().day()) + n(gregorian::gregorian_calendar::end_of_month_day(2021, 2)) + n(gregorian::gregorian_calendar::is_leap_year(2020)) + n(d.day_of_year()) + n(d.week_number()); }
S u_julian() { gregorian::date a(2020, 2, 3); return n((a - gregorian::date(2020, 1, 1)).days()) + n(a.julian_day() - gregorian::date(2020, 1, 1).julian_day()) + n((gregorian::date(2020, 1, 31) + gregorian::months(1)).day()); }
S u_dateexc() { try { gregorian::date d(2021, 2, 30); return "ok"; } catch(const gregorian::bad_day_of_month&) { return "bad"; } catch(const std::exception&) { return "other"; } }
S u_dateexc2() { try { gregorian::date d(2021, 13, 1); return "ok"; } catch(const std::out_of_range&) { return "range"; } }
S u_tdur() { posix_time::time_duration t(25, 0, 0); return n(t.hours()) + n(t.minutes()) + n((posix_time::hours(-1) + posix_time::minutes(30)).minutes()) + n(posix_time::seconds(90).minutes()); }
S u_enumclass() { enum class K : int { A = 1, B }; auto k = static_cast<K>(2); return n(k == K::B) + n(static_cast<int>(k)); }
struct Acc { int v = 0; Acc& add(int x) & { v += x; return *this; } static Acc of(int x) { Acc a; a.v = x; return a; } operator int() const { return v; } explicit operator bool() const { return v != 0; } };
S u_fluent() { Acc a = Acc::of(2); a.add(3).add(4); int k = a; return n(k) + n(a ? 1 : 0); }
template <typename T, typename P> const T* firstOf(const std::vector<T>& v, P p) { for(const T& x : v) if(p(x)) return &x; return nullptr; }
S u_tmplptr() { std::vector<S> v{"a", "bb"}; const S* p = firstOf(v, [](const S& s) { return s.size() > 1; }); return p ? *p : "none"; }
namespace { constexpr int kTable[][2] = {{1, 10}, {2, 20}}; }
S u_table2d() { int s = 0; for(const auto& r : kTable) s += r[0] * r[1]; return n(s) + n(kTable[1][1]); }
S u_tmpmatch() { std::smatch m; S s = "ab12"; if(std::regex_search(s, m, std::regex("([a-z]+)([0-9]+)"))) { S r; for(size_t i = 1; i < m.size(); ++i) r += m.str(i) + "/"; return r + n(m.position(2)) + n(m[1].matched) + n(m[1].length()) + S(m[2].first, m[2].second) + m.prefix().str() + m.suffix().str(); } return ""; }
S u_subcmp() { std::smatch m; S s = "am"; std::regex_match(s, m, std::regex("(a)?(p)?m")); return n(m[1] == "a") + n(m[2] == "") + n(m[2].str().empty()) + n(m.length(1)); }
S u_weakref() { int a = 1; std::reference_wrapper<int> r = a; r.get() = 5; return n(a) + n(r); }
S u_arrref() { int a[3] = {1, 2, 3}; for(int& x : a) x *= 2; int (&b)[3] = a; return n(b[2]); }
S u_longlong() { long long x = 3000000000LL; return n(x / 1000) + n(static_cast<int>(x % 7)) + n(-7 / 2) + n(-7 % 3); }
S u_unsignedsub() { std::size_t a = 2, b = 3; return n(a - b > 100) + n(static_cast<long>(a) - static_cast<long>(b)); }
S u_ternref() { int a = 1, b = 2; bool c = true; (c ? a : b) = 9; int& r = c ? a : b; r++; return n(a) + n(b); }
S u_dowhile2() { int k = 0; do { if(++k == 2) continue; if(k > 3) break; } while(k < 10); return n(k); }
