// Search for a text or a row on which the real conversions differ from the specification.
// -DOPTS=... options of the converter; MODE 0 bool, 1 string, 2 throw. Arguments: seconds, seed, kinds of differences.
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <unistd.h>
#include <ss/converter.hpp>
#include "refconv.hpp"
static const Dialect D{"\"", "\\", " ", " ", false};
using C = ss::converter<OPTS>;

static std::string cur, cur_ops;
static std::vector<std::string> kinds;
static unsigned long long evals = 0, accepted = 0, rejected = 0, rows_ok = 0, rows_bad = 0, mapped = 0;
static void dump(const char* what, const std::string& want, const std::string& got) {
    printf("\nFOUND {\"what\": %s, \"text\": %s, \"operations\": %s, \"expected\": %s, \"got\": %s}\n", show(what).c_str(), show(cur).c_str(),
           show(cur_ops).c_str(), show(want).c_str(), show(got).c_str());
    fflush(stdout);
}
extern "C" void __asan_on_error() { dump("memory error", "", ""); }
static void onabrt(int) { dump("memory error", "", ""); _exit(3); }
struct Stop {};
static void differ(const std::string& what, const std::string& want, const std::string& got) {
    for (auto& k : kinds) if (what.find(k) != std::string::npos) { dump(what.c_str(), want, got); _exit(3); }
    if (kinds.empty()) { dump(what.c_str(), want, got); _exit(3); }
    throw Stop{};
}
static bool wanted(const char* w) {
    for (auto& k : kinds) if (std::string(w).find(k) != std::string::npos) return true;
    return kinds.empty();
}

// ---- one field ------------------------------------------------------------------
template <typename T> static bool same(const std::string& w, const T& v) { return w == rep(v); }
template <typename T> static void field(const char* what, const char* type, T& v, const std::string& s, char after) {
    cur = s;
    ++evals;
    RC w = Conv<T>::go(s);
    (w.ok ? accepted : rejected)++;
    // the field is in a line: one character before it, one behind it
    std::unique_ptr<char[]> d(new char[s.size() + 2]);
    d[0] = '1';
    memcpy(d.get() + 1, s.data(), s.size());
    d[s.size() + 1] = after;
    cur_ops = std::string("extract<") + type + "> followed by " + show(std::string(1, after));
    try {
        bool ok = ss::extract(d.get() + 1, d.get() + 1 + s.size(), v);
        if (ok != w.ok) differ(what, w.ok ? "accepted: " + w.val : "rejected", ok ? "accepted: " + rep(v) : "rejected");
        else if (ok && rep(v) != w.val) differ(what, w.val, rep(v));
    } catch (Stop&) {
    } catch (std::exception& e) {
        try { differ(what, w.ok ? w.val : "rejected", std::string("exception: ") + e.what()); } catch (Stop&) {}
    }
}
static std::mt19937 g;
static const char* afters[] = {",", "\0", "1", "\"", " ", ".", "e", "a"};
template <typename T> static void all(const char* what, const char* type, const std::vector<std::string>& texts, const std::string& alpha, size_t maxlen) {
    if (!wanted(what)) return;
    T v{};
    alarm(60);
    for (auto& s : texts) for (auto a : afters) field<T>(what, type, v, s, *a);
    for (size_t len = 0; len <= maxlen; ++len) {
        std::vector<size_t> ix(len, 0);
        std::string s(len, alpha[0]);
        while (true) {
            if ((evals & 4095) == 0) alarm(60);
            field<T>(what, type, v, s, *afters[g() % 8]);
            size_t k = 0;
            for (; k < len; ++k) {
                if (++ix[k] < alpha.size()) { s[k] = alpha[ix[k]]; break; }
                ix[k] = 0;
                s[k] = alpha[0];
            }
            if (k == len) break;
        }
    }
}
static std::vector<std::string> numbers() {
    std::vector<std::string> v;
    for (int b : {7, 8, 15, 16, 31, 32, 63, 64})
        for (int d = -2; d <= 2; ++d)
            for (int sg : {1, -1}) {
                __int128 x = ((__int128)1 << b) + d;
                std::string s;
                for (; x; x /= 10) s.insert(s.begin(), '0' + (int)(x % 10));
                for (const char* z : {"", "0", "000", "+", " "}) v.push_back((sg < 0 ? "-" : "") + std::string(z) + s);
                v.push_back((sg < 0 ? "-" : "") + s + "0");
                v.push_back((sg < 0 ? "-" : "") + s + " ");
                v.push_back((sg < 0 ? "-" : "") + s + ".0");
            }
    for (int n : {20, 30, 39, 62, 63, 64, 65, 66, 128, 300}) {
        v.push_back(std::string(n, '9'));
        v.push_back(std::string(n, '0'));
        v.push_back(std::string(n, '0') + "7");
        v.push_back("-" + std::string(n - 1, '0') + "7");
        v.push_back(std::string(n, '1') + "x");
    }
    for (const char* s : {"0x10", "1e2", "1,0", "1'0", "--1", "-", "+", "+1", "1-", "\t1", "1\n", "0b1", "1_0", "0", "-0", "00"}) v.push_back(s);
    v.push_back(std::string("1\0", 2));
    v.push_back(std::string("\0", 1));
    v.push_back(std::string("1\0002", 3));
    return v;
}
static std::vector<std::string> reals() {
    std::vector<std::string> v = numbers();
    for (const char* s : {"inf", "-inf", "INF", "Infinity", "nan", "-nan", "NaN", "nan(1)", "nan()", "infinit", "infx", "nanx", "1e308", "1e-308", "4.9e-324", "1e-400",
                          "0.1", "-.5", "5.", ".", "-.", "1.5e", "1.5e+", "1.5e+3", "1.5E-3", "1e5.", "1.1.1", "0x1p3", "0x1", "1.7976931348623157e308", "2.2250738585072011e-308",
                          "3.4028234e38", "1.17549435e-38", "9007199254740993", "0.500000000000000166533453693773481063544750213623046875", "1e0000000000000000000000000000001", "1.0f", "1d", "1l", "+1.5", " 1.5", "1.5 ", "1.5\t"}) v.push_back(s);
    for (int n : {30, 61, 62, 63, 64, 65, 66, 100, 200, 500}) {
        v.push_back("0." + std::string(n - 2, '3'));
        v.push_back("-0." + std::string(n - 3, '7'));
        v.push_back("1." + std::string(n - 3, '0') + "1");
        v.push_back("1." + std::string(n - 3, '5') + "x");
        v.push_back(std::string(n - 4, '0') + "1.25");
        v.push_back(std::string(n - 4, '0') + "1e-2");
    }
    return v;
}
static void fields(double) {
    auto n = numbers(), r = reals();
    const std::string ia = "0129-+ x";
    for (auto v : {&n, &r}) for (size_t i = 0, k = v->size(); i < k; ++i) if ((*v)[i].size() < 40 && i % 7 == 0) { std::string s = (*v)[i]; if (!s.empty()) { s[s.size() / 2] = '0' + i % 10; v->push_back(s); } }
#define INTS(T) all<T>("extract integer", #T, n, ia, 4)
    INTS(int); INTS(unsigned); INTS(short); INTS(unsigned short); INTS(long); INTS(unsigned long); INTS(long long); INTS(unsigned long long); INTS(ss::int8); INTS(ss::uint8);
    all<int>("extract integer", "int", {}, "0123456789-", 4);
    all<ss::int8>("extract integer", "ss::int8", {}, "0123456789-", 4);
    all<ss::uint8>("extract integer", "ss::uint8", {}, "0123456789-", 4);
    std::vector<std::string> b{"true", "false", "TRUE", "True", "truee", "falsee", "fals", "tru", "false ", " true", "00", "01", "10", "11", std::string("true\0", 5), std::string("1\0", 2), "yes", "no"};
    all<bool>("extract bool", "bool", b, "01truefals", 5);
    std::vector<std::string> ch;
    for (int i = 0; i < 256; ++i) { ch.push_back(std::string(1, (char)i)); ch.push_back(std::string(1, (char)i) + "x"); ch.push_back("x" + std::string(1, (char)i)); }
    all<char>("extract char", "char", ch, "ab1 ", 3);
    all<bool>("extract bool", "bool", ch, "01", 1);
    std::vector<std::string> st = ch;
    for (int i = 0; i < 70; ++i) st.push_back(std::string(i, 'a' + i % 26));
    all<std::string>("extract string", "std::string", st, "ab1 ", 3);
    all<double>("extract float", "double", r, "01.-+eEinf ", 4);
    all<float>("extract float", "float", r, "05.-e ", 4);
    all<double>("extract float", "double", {}, "09.-e", 6);
    all<std::optional<int>>("extract optional", "std::optional<int>", n, ia, 3);
    all<std::optional<double>>("extract optional", "std::optional<double>", r, "01.-e ", 3);
    all<std::optional<float>>("extract optional", "std::optional<float>", r, "01.-e ", 3);
    all<std::optional<std::string>>("extract optional", "std::optional<std::string>", st, "ab1 ", 3);
    all<std::optional<bool>>("extract optional", "std::optional<bool>", b, "01tx", 3);
    all<std::optional<char>>("extract optional", "std::optional<char>", ch, "ab1 ", 3);
    all<std::variant<int, char, std::string>>("extract variant", "std::variant<int, char, std::string>", n, "01-a+", 4);
    all<std::variant<int, double>>("extract variant", "std::variant<int, double>", r, "01.-e ", 4);
    all<std::variant<bool, int>>("extract variant", "std::variant<bool, int>", n, "01-atrue", 4);
    all<std::variant<std::string, int>>("extract variant", "std::variant<std::string, int>", n, "01-a", 3);
    all<std::variant<double, char>>("extract variant", "std::variant<double, char>", r, "01.-ae", 3);
    all<std::variant<ss::uint8, short, char>>("extract variant", "std::variant<ss::uint8, short, char>", n, "0125-a", 3);
    all<std::variant<float, std::string>>("extract variant", "std::variant<float, std::string>", r, "01.-ae", 3);
}

// ---- restrictions ---------------------------------------------------------------
template <typename T> struct is_oor { static constexpr bool value = false; };
template <typename T, auto A, auto B> struct is_oor<ss::oor<T, A, B>> { static constexpr bool value = true; };
template <typename R, typename T> static void limit(const char* type, const T& v, const std::string& s) {
    cur = s;
    if (is_oor<R>::value && v != v) return;     // whether not-a-number is out of range is not specified
    cur_ops = std::string(type) + "::ss_valid";
    ++evals;
    RC r = Conv<R>::go(s);
    bool ok = R{}.ss_valid(v);
    try {
        if (ok != r.ok) differ("restriction value", r.ok ? "permitted" : "refused", ok ? "permitted" : "refused");
        if constexpr (ss::has_m_error_t<R>) if (!r.ok && std::string(R{}.error()) != r.restriction) differ("restriction message", r.restriction, R{}.error());
    } catch (Stop&) {}
}
template <typename T, typename... R> static void limits(const std::vector<std::string>& texts) {
    for (auto& s : texts) {
        T v{};
        if (!Conv<T>::go(s).ok || !ss::extract(s.data(), s.data() + s.size(), v)) continue;
        (limit<R>(__PRETTY_FUNCTION__, v, s), ...);
    }
}
static void restrictions() {
    if (!wanted("restriction value") && !wanted("restriction message")) return;
    std::vector<std::string> n = numbers(), r = reals(), chars, strs{"", "a", "ab", " ", "0"};
    for (int i = -20; i <= 300; ++i) { n.push_back(std::to_string(i)); r.push_back(std::to_string(i / 4.0)); }
    for (int i = 1; i < 256; ++i) chars.push_back(std::string(1, (char)i));
    limits<int, ss::ax<int, 5>, ss::ax<int, 1, 2, 3>, ss::ax<int, -1, 0, 7, 12>, ss::nx<int, 5>, ss::nx<int, 1, 2, 3>, ss::nx<int, -1, 0, 7, 12>, ss::gt<int, 0>, ss::gt<int, -3>, ss::gte<int, 0>, ss::gte<int, 12>,
           ss::lt<int, 0>, ss::lt<int, 12>, ss::lte<int, 0>, ss::lte<int, -3>, ss::ir<int, 0, 10>, ss::ir<int, -3, 3>, ss::ir<int, 5, 5>, ss::ir<int, 5, 1>, ss::oor<int, 0, 10>, ss::oor<int, -3, 3>, ss::oor<int, 5, 5>, ss::oor<int, 5, 1>>(n);
    limits<long, ss::ax<long, 5, 6>, ss::nx<long, 5, 6>, ss::gt<long, 2147483647>, ss::gte<long, 2147483648>, ss::lt<long, -2147483648>, ss::lte<long, 12>, ss::ir<long, -5, 2147483648>, ss::oor<long, -5, 2147483648>>(n);
    limits<unsigned, ss::ax<unsigned, 5u, 6u>, ss::nx<unsigned, 5u, 6u>, ss::gt<unsigned, 7u>, ss::gte<unsigned, 7u>, ss::lt<unsigned, 7u>, ss::lte<unsigned, 7u>, ss::ir<unsigned, 3u, 2147483649u>, ss::oor<unsigned, 3u, 2147483649u>>(n);
    limits<short, ss::ax<short, 5, 6>, ss::nx<short, 5, 6>, ss::gt<short, -7>, ss::gte<short, 7>, ss::lt<short, 7>, ss::lte<short, 7>, ss::ir<short, -3, 3>, ss::oor<short, -3, 3>>(n);
    limits<double, ss::ax<double, 5, 6>, ss::nx<double, 5, 6>, ss::gt<double, 7>, ss::gte<double, 7>, ss::lt<double, 7>, ss::lte<double, 7>, ss::ir<double, -3, 3>, ss::oor<double, -3, 3>>(r);
    limits<float, ss::gt<float, 7>, ss::gte<float, 7>, ss::lt<float, 7>, ss::lte<float, 7>, ss::ir<float, -3, 3>, ss::oor<float, -3, 3>>(r);
    limits<char, ss::ax<char, 'a', 'z'>, ss::nx<char, 'a', 'b', 'c'>, ss::gt<char, 'b'>, ss::gte<char, 'b'>, ss::lt<char, 'b'>, ss::lte<char, 'b'>, ss::ir<char, 'b', 'd'>, ss::oor<char, 'b', 'd'>>(chars);
    limits<std::string, ss::ne<std::string>>(strs);
}

// ---- rows -----------------------------------------------------------------------
struct Obj { int a; std::string b; };
static std::string rep(const Obj& o) { return "(" + rep(o.a) + " " + rep(o.b) + " )"; }
struct Tied { int a; std::string b; auto tied() { return std::tie(a, b); } };
static std::string rep(const Tied& o) { return "(" + rep(o.a) + " " + rep(o.b) + " )"; }
static std::string delim = ",";
template <typename V, typename... Ts, typename F> static void row(C& c, const char* name, const std::string& line, int entry, const std::vector<size_t>& map, size_t ncols, F call) {
    ++evals;
    cur_ops += std::string(" ") + name + (entry == 0 ? "()" : entry == 1 ? "(elems)" : "(line)") + " of " + show(line) + (map.empty() ? "" : " mapped");
    Row r;
    r.text = line;
    if (!line.empty()) {
        Split s = oracle_split(D, line, delim);
        r.fields = s.fields;
        r.err = message(s);
    }
    Out w = CRow<Ts...>::go("", r, map, ncols);
    (w.ok ? rows_ok : rows_bad)++;
    std::unique_ptr<char[]> d(new char[line.size() + 1]);
    memcpy(d.get(), line.c_str(), line.size() + 1);
    bool threw = false;
    std::string msg, got;
    try {
        if (entry == 0) { c.split(d.get(), delim); got = rep(call(c, nullptr, nullptr)); }
        if (entry == 1) { ss::split_data e = c.split(d.get(), delim); got = rep(call(c, &e, nullptr)); }
        if (entry == 2) got = rep(call(c, nullptr, d.get()));
    } catch (ss::exception& e) {
        threw = true;
        msg = e.what();
    }
    if (MODE != 2 && threw) differ("validity " + w.what, "", "exception: " + msg);
    bool ok = MODE == 2 ? !threw : c.valid();
    if (ok != w.ok) differ("validity " + w.what, w.ok ? w.val : w.err, ok ? got : "invalid");
#if MODE == 1
    msg = c.error_msg();
#endif
    if (MODE != 0 && msg != w.err) differ("message " + w.what, w.err, msg);
    if (ok && got != w.val) differ("value", w.val, got);
}
#define ROW(V, CALL, ...) row<V, __VA_ARGS__>(c, CALL #__VA_ARGS__ ">", line, entry, map, ncols, F)
template <typename... Ts> static void conv(C& c, const char* name, const std::string& line, int entry, const std::vector<size_t>& map, size_t ncols, int wrap) {
    using V = ss::no_void_validator_tup_t<Ts...>;
    if (wrap == 1)
        row<V, Ts...>(c, name, line, entry, map, ncols, [](C& c, ss::split_data* e, char* l) -> V {
            using T = std::tuple<Ts...>;
            return l ? c.convert<T>(l, delim) : e ? c.convert<T>(*e) : c.convert<T>(); });
    else
        row<V, Ts...>(c, name, line, entry, map, ncols, [](C& c, ss::split_data* e, char* l) -> V {
            return l ? c.convert<Ts...>(l, delim) : e ? c.convert<Ts...>(*e) : c.convert<Ts...>(); });
}
static void object(C& c, const std::string& line, int entry, const std::vector<size_t>& map, size_t ncols, bool tied) {
    if (tied) row<Tied, int, std::string>(c, "convert<Tied>", line, entry, map, ncols, [](C& c, ss::split_data* e, char* l) -> Tied {
        return l ? c.convert<Tied>(l, delim) : e ? c.convert<Tied>(*e) : c.convert<Tied>(); });
    else row<Obj, int, std::string>(c, "convert_object<Obj, int, string>", line, entry, map, ncols, [](C& c, ss::split_data* e, char* l) -> Obj {
        return l ? c.convert_object<Obj, int, std::string>(l, delim) : e ? c.convert_object<Obj, int, std::string>(*e) : c.convert_object<Obj, int, std::string>(); });
}
static std::string atext() {
    static const char* t[] = {"5", "1", "12", "13", "-1", "0", "2147483647", "2147483648", "-2147483648", "007", "true", "false", "a", "b", "abc", "", "", "1.5", "-2e3", "x y", "99999999999999999999", "+1", "1a", "0x1", "127", "128", "255", "256", "300",
                              "\"a\"", "\" q\"", "\"x", "\"a\"b", "\\,", "\"\"\"\"", " 5 ", "  a"};
    if (g() % 40 == 0) return std::string(g() % 200, 'x');
    return t[g() % (sizeof t / sizeof *t)];
}
static void sequence() {
    C c;
    std::vector<size_t> map;
    size_t ncols = 0;
    cur_ops = "";
    delim = g() % 3 ? "," : "::";
    try {
        for (int k = 1 + g() % 6; k; --k) {
            if (g() % 4 == 0) {
                map.clear();
                if (g() % 2) {
                    ncols = 1 + g() % 5;
                    for (size_t n = 1 + g() % 4, i = 0; i < n; ++i) map.push_back(g() % ncols);
                    c.set_column_mapping(map, ncols);
                    cur_ops += " set_column_mapping({";
                    for (auto m : map) cur_ops += std::to_string(m) + " ";
                    cur_ops += "}, " + std::to_string(ncols) + ")";
                    ++mapped;
                } else {
                    c.clear_column_positions();
                    ncols = 0;
                    cur_ops += " clear_column_positions()";
                }
            }
            size_t n = map.empty() ? g() % 5 : ncols, want = map.empty() ? n : map.size();
            if (g() % 8 == 0) n = g() % 6;
            if (g() % 8 == 0) want = g() % 6;
            std::string line;
            for (size_t i = 0; i < n; ++i) line += (i ? delim : "") + atext();
            cur = line;
            int e = g() % 3, w = g() % 3;
            unsigned x = g();
#define CV(...) conv<__VA_ARGS__>(c, "convert<" #__VA_ARGS__ ">", line, e, map, ncols, w); break;
            switch (want) {
            case 0: case 1: switch (x % 14) {
                case 0: CV(int) case 1: CV(std::string) case 2: CV(char) case 3: CV(bool) case 4: CV(double) case 5: CV(std::optional<int>) case 6: CV(ss::ne<std::string>)
                case 7: CV(ss::ir<int, 0, 12>) case 8: CV(ss::uint8) case 9: CV(std::variant<int, char, std::string>) case 10: CV(ss::nx<char, 'a', 'b'>) case 11: CV(ss::ax<int, 5, 12>) case 12: CV(unsigned) default: CV(ss::oor<int, 1, 12>) }
                break;
            case 2: switch (x % 10) {
                case 0: CV(int, std::string) case 1: CV(std::string, int) case 2: CV(void, int) case 3: CV(std::string, void) case 4: CV(ss::gt<int, 1>, ss::lt<int, 1>) case 5: CV(std::optional<double>, std::variant<double, std::string>)
                case 6: CV(bool, char) case 7: object(c, line, e, map, ncols, true); break; case 8: object(c, line, e, map, ncols, false); break; default: CV(ss::ne<std::string>, ss::ax<int, 5>) }
                break;
            case 3: switch (x % 6) {
                case 0: CV(int, int, int) case 1: CV(std::string, void, int) case 2: CV(void, void, std::string) case 3: CV(ss::gte<int, 1>, ss::lte<int, 1>, int) case 4: CV(std::string, std::string, std::string) default: CV(char, void, ss::ne<std::string>) }
                break;
            default: switch (x % 3) { case 0: CV(int, std::string, void, double) case 1: CV(std::string, std::string, std::string, std::string) default: CV(void, int, void, ss::ir<int, 0, 12>) }
            }
        }
    } catch (Stop&) {
    } catch (std::exception& e) {
        try { differ("validity exception", "", e.what()); } catch (Stop&) {}
    }
}

int main(int argc, char** argv) {
    double budget = argc > 1 ? atof(argv[1]) : 20;
    unsigned seed = argc > 2 ? atoi(argv[2]) : 1;
    for (int i = 3; i < argc; ++i) kinds.push_back(argv[i]);
    if (!kinds.empty()) kinds.push_back("memory");
    signal(SIGABRT, onabrt);
    signal(SIGALRM, [](int) { dump("does not terminate", "", ""); _exit(3); });
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    g.seed(seed);
    bool rows = wanted("value") || wanted("validity") || wanted("message") || wanted("mapping") || wanted("number of columns") || wanted("conversion") || wanted("row error");
    fields(budget);
    restrictions();
    while (left() > 0 && rows) {
        alarm(20);
        for (int r = 0; r < 200; ++r) sequence();
    }
    printf("DONE {\"evaluations\": %llu, \"accepted\": %llu, \"rejected\": %llu, \"rows\": %llu, \"failed_rows\": %llu, \"mappings\": %llu}\n", evals, accepted, rejected, rows_ok, rows_bad, mapped);
}
