// Executable form of the parser's specification, independent of /repo.
#pragma once
#include "oracle.hpp"
#include <cstdint>
#include <limits>
#include <map>
#include <optional>
#include <tuple>
#include <variant>

struct Phys {
    size_t start, end;
    std::string text, eol;
};

inline std::vector<Phys> physical(const std::string& in) {
    std::vector<Phys> v;
    size_t p = 0;
    while (p < in.size()) {
        size_t e = in.find('\n', p);
        e = e == std::string::npos ? in.size() : e + 1;
        Phys l{p, e, in.substr(p, e - p), ""};
        if (!l.text.empty() && l.text.back() == '\n') {
            l.text.pop_back();
            l.eol = "\n";
            if (!l.text.empty() && l.text.back() == '\r') {
                l.text.pop_back();
                l.eol = "\r\n";
            }
        }
        v.push_back(l);
        p = e;
    }
    return v;
}

struct Setup {
    Dialect d;
    size_t limit = 0; // 0: none
    bool ignore_empty = false, ignore_header = false;
    int mode = 0;     // 0 bool, 1 string, 2 throw
};

struct Row {
    size_t line = 0;    // number of its last physical line, from 1
    std::string text;
    std::string err;    // split error
    std::vector<std::string> fields;
};

struct Ref {
    Setup o;
    std::string name, delim, input;
    std::vector<Phys> L;
    size_t next = 0;        // next physical line to read
    bool eof = false;
    size_t lineno = 0, position = 0;
    Row row;                // row which the last get_next() looked at
    std::string error;
    std::string raw_header;
    size_t header_line = 0;
    std::vector<std::string> header;
    std::vector<size_t> mapping;
    size_t ncols = 0;
    size_t cur = 0;         // physical line which is the start of the next row

    Ref(Setup s, std::string in, std::string n, std::string d) : o(s), name(n), delim(d), input(in), L(physical(in)) {
        read();
        if (o.ignore_header) ignore_next();
        else {
            raw_header = eof ? "" : L[cur].text;
            header_line = line();
        }
    }
    size_t line() const { return lineno > 0 ? lineno - 1 : 0; }
    void read() {
        while (true) {
            ++lineno;
            position = next < L.size() ? L[next].start : input.size();
            if (next >= L.size()) { eof = true; return; }
            cur = next++;
            if (o.ignore_empty && L[cur].text.empty()) continue;
            eof = false;
            return;
        }
    }
    bool ignore_next() {
        if (eof) return false;
        read();
        return !eof;
    }
    bool esc_eol(const std::string& t) const {
        size_t n = 0;
        while (n < t.size() && o.d.escape.find(t[t.size() - 1 - n]) != std::string::npos) ++n;
        return n % 2;
    }
    // the row which starts at the line read last
    void parse() {
        row = Row{};
        std::string t = L[cur].text;
        size_t k = cur, used = 0;
        bool ml = o.d.multiline;
        auto more = [&](const char* err) {
            if (o.limit && used++ >= o.limit) { row.err = "multiline limit reached"; return false; }
            if (next >= L.size()) { row.err = err; position = input.size(); return false; }
            position = L[next].start;
            t += L[k].eol;
            k = next++;
            t += L[k].text;
            ++lineno;
            return true;
        };
        const char* ee = "unterminated escape at the end of the line";
        while (true) {
            if (ml && !o.d.escape.empty())
                while (esc_eol(t)) if (!more(ee)) { row.line = lineno; row.text = t; return; }
            if (t.empty()) break;
            Split s = oracle_split(o.d, t, delim);
            row.fields = s.fields;
            row.err = message(s);
            if (ml && !o.d.quote.empty() && s.open) {
                row.fields.clear();
                if (!more("unterminated quote")) break;
                continue;
            }
            break;
        }
        row.line = lineno;
        row.text = t;
    }
    std::string at(size_t line) const { return name + " " + std::to_string(line) + ": "; }
};

// ---- values -----------------------------------------------------------------
inline std::string rep(const std::string& s) { return "s" + show(s); }
inline std::string rep(bool b) { return b ? "true" : "false"; }
inline std::string rep(char c) { return "c" + std::to_string((int)c); }
template <typename T> std::enable_if_t<std::is_integral_v<T>, std::string> rep(T x) { return std::to_string(x); }
template <typename T> auto rep(const T& x) -> decltype(std::to_string((int)x.value)) { return std::to_string((int)x.value); }
inline std::string rep(double x) { char b[64]; snprintf(b, sizeof b, "%a", x); return b; }
template <typename... T> std::string rep(const std::tuple<T...>& x);
template <typename... T> std::string rep(const std::variant<T...>& x);
template <typename T> std::string rep(const std::optional<T>& x) { return x ? "some(" + rep(*x) + ")" : "none"; }
template <typename... T> std::string rep(const std::variant<T...>& x) {
    return std::to_string(x.index()) + ":" + std::visit([](auto& y) { return rep(y); }, x);
}
template <typename... T> std::string rep(const std::tuple<T...>& x) {
    std::string o = "(";
    std::apply([&](auto&... y) { ((o += rep(y) + " "), ...); }, x);
    return o + ")";
}

struct RC {             // result of converting one field
    bool ok = true;
    std::string val;    // representation
    const char* restriction = nullptr;  // error text of the restriction which failed
};

template <typename T, typename = void> struct Conv;
template <> struct Conv<std::string> { static RC go(const std::string& s) { return {true, rep(s)}; } };
template <> struct Conv<char> { static RC go(const std::string& s) { return s.size() == 1 ? RC{true, rep(s[0])} : RC{false}; } };
template <> struct Conv<bool> {
    static RC go(const std::string& s) {
        if (s == "1" || s == "true") return {true, "true"};
        if (s == "0" || s == "false") return {true, "false"};
        return {false};
    }
};
template <typename T> struct Conv<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>> {
    static RC go(const std::string& s) {
        size_t i = 0;
        bool neg = false;
        if (std::is_signed_v<T> && i < s.size() && s[i] == '-') { neg = true; ++i; }
        if (i == s.size()) return {false};
        __int128 v = 0;
        for (; i < s.size(); ++i) {
            if (s[i] < '0' || s[i] > '9') return {false};
            v = v * 10 + (s[i] - '0');
            if (v > (__int128)1 << 80) v = (__int128)1 << 80;
        }
        if (neg) v = -v;
        if (v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max()) return {false};
        return {true, rep((T)v)};
    }
};
template <typename T> struct Conv<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static T val(const char* s, char** e) {
        if constexpr (std::is_same_v<T, float>) return strtof(s, e);
        else return strtod(s, e);
    }
    static RC go(const std::string& s) {
#ifdef SSP_DISABLE_FAST_FLOAT
        char* e;
        T v = val(s.c_str(), &e);
        if (s.empty() || e != s.c_str() + s.size()) return {false};
        return {true, rep(v)};
#else
        // [-] digits [. digits] [e [+-] digits], at least one digit before or behind the point
        size_t i = 0, d = 0;
        if (i < s.size() && s[i] == '-') ++i;
        std::string w = s.substr(i);
        for (auto& c : w) if (c >= 'A' && c <= 'Z') c += 32;
        if (w == "inf" || w == "infinity") return {true, rep(s[0] == '-' ? -(T)(1.0 / 0.0) : (T)(1.0 / 0.0))};
        bool nan = w == "nan" || (w.size() > 4 && w.compare(0, 4, "nan(") == 0 && w.back() == ')');
        for (size_t k = 4; nan && k + 1 < w.size(); ++k) nan = isalnum((unsigned char)w[k]) || w[k] == '_';
        if (nan) return {true, rep(s[0] == '-' ? -(T)__builtin_nan("") : (T)__builtin_nan(""))};
        auto digs = [&] { size_t n = 0; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++n; return n; };
        d = digs();
        if (i < s.size() && s[i] == '.') { ++i; d += digs(); }
        if (!d) return {false};
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
            if (!digs()) return {false};
        }
        if (i != s.size()) return {false};
        return {true, rep(val(s.c_str(), nullptr))};
#endif
    }
};
template <typename T> struct Conv<std::optional<T>> {
    static RC go(const std::string& s) {
        RC r = Conv<T>::go(s);
        return {true, r.ok ? "some(" + r.val + ")" : "none"};
    }
};
template <typename... T> struct Conv<std::variant<T...>> {
    static RC go(const std::string& s) {
        RC out{false};
        size_t i = 0;
        ((!out.ok ? (void)([&] { RC r = Conv<T>::go(s); if (r.ok) out = {true, std::to_string(i) + ":" + r.val}; ++i; }()) : (void)0), ...);
        return out;
    }
};
