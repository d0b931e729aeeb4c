// Executable form of the conversions' specification: restrictions and rows. Include after ss/converter.hpp or ss/parser.hpp.
#pragma once
#include "refparser.hpp"

template <> struct Conv<ss::int8> { static RC go(const std::string& s) { return Conv<int8_t>::go(s); } };
template <> struct Conv<ss::uint8> { static RC go(const std::string& s) { return Conv<uint8_t>::go(s); } };

// ---- restrictions -------------------------------------------------------------
template <typename T, auto... V> struct Conv<ss::ax<T, V...>> {
    static RC go(const std::string& s) { RC r = Conv<T>::go(s); bool hit = false; ((hit = hit || r.val == rep((T)V)), ...); if (r.ok && hit) return {false, "", "value excluded"}; return r; }
};
template <typename T, auto... V> struct Conv<ss::nx<T, V...>> {
    static RC go(const std::string& s) { RC r = Conv<T>::go(s); bool hit = false; ((hit = hit || r.val == rep((T)V)), ...); if (r.ok && !hit) return {false, "", "value excluded"}; return r; }
};
template <typename T> struct Conv<ss::ne<T>> {
    static RC go(const std::string& s) { RC r = Conv<T>::go(s); if (s.empty()) return {false, "", "empty field"}; return r; }
};
template <typename T> long double number(const std::string& s) {
    if constexpr (std::is_same_v<T, char>) return s[0];
    else if constexpr (std::is_floating_point_v<T>) return (T)strtod(s.c_str(), nullptr);
    else return strtold(s.c_str(), nullptr);     // exact for every integer type
}
template <typename T, typename F> RC permitted(const std::string& s, F f) {
    RC r = Conv<T>::go(s);
    if (r.ok && !f(number<T>(s))) return {false, "", "validation error"};
    return r;
}
template <typename T, auto A, auto B> struct Conv<ss::ir<T, A, B>> { static RC go(const std::string& s) { return permitted<T>(s, [](long double v) { return v >= A && v <= B; }); } };
template <typename T, auto A, auto B> struct Conv<ss::oor<T, A, B>> { static RC go(const std::string& s) { return permitted<T>(s, [](long double v) { return v < A || v > B; }); } };
template <typename T, auto A> struct Conv<ss::gt<T, A>> { static RC go(const std::string& s) { return permitted<T>(s, [](long double v) { return v > A; }); } };
template <typename T, auto A> struct Conv<ss::lt<T, A>> { static RC go(const std::string& s) { return permitted<T>(s, [](long double v) { return v < A; }); } };
template <typename T, auto A> struct Conv<ss::gte<T, A>> { static RC go(const std::string& s) { return permitted<T>(s, [](long double v) { return v >= A; }); } };
template <typename T, auto A> struct Conv<ss::lte<T, A>> { static RC go(const std::string& s) { return permitted<T>(s, [](long double v) { return v <= A; }); } };

// ---- conversion of a row, as specified -----------------------------------------
struct Out { bool ok = false; std::string err, val, what = "row"; };
template <typename... Ts> struct CRow {
    static Out go(const std::string& where, const Row& r, const std::vector<size_t>& map, size_t ncols) {
        Out o;
        auto bad = [&](const std::string& m, const char* what) { o.err = where + m; o.what = what; return o; };
        if (!r.err.empty()) return bad(r.err, "row error");
        constexpr size_t n = sizeof...(Ts);
        auto cols = [](size_t a, size_t b) { return "invalid number of columns, expected: " + std::to_string(a) + ", got: " + std::to_string(b); };
        if (map.empty()) { if (r.fields.size() != n) return bad(cols(n, r.fields.size()), "number of columns"); }
        else {
            if (map.size() != n) return bad("number of arguments does not match mapping, expected: " + std::to_string(map.size()) + ", got: " + std::to_string(n), "mapping");
            if (r.fields.size() != ncols) return bad(cols(ncols, r.fields.size()), "number of columns");
        }
        std::string err, val;
        size_t i = 0, cnt = 0;
        auto one = [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            size_t k = i++;
            if constexpr (!std::is_void_v<T>) {
                ++cnt;
                const std::string& f = r.fields[map.empty() ? k : map[k]];
                RC c = Conv<T>::go(f);
                val += c.val + " ";
                if (!c.ok && err.empty()) err = (c.restriction ? std::string(c.restriction) + " " : std::string("invalid conversion for parameter ")) + "at column " + std::to_string(k + 1) + ": '" + f + "'";
            }
        };
        (one((Ts*)nullptr), ...);
        if (!err.empty()) return bad(err, err.substr(0, 7) == "invalid" ? "conversion" : "restriction");
        o.ok = true;
        if (cnt == 1) { val.pop_back(); o.val = val; }
        else o.val = "(" + val + ")";
        return o;
    }
};

