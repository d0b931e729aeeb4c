// Executable form of the dialect's specification machine (same machine as irv/split.py), independent of /repo.
#pragma once
#include <string>
#include <vector>

struct Dialect {
    std::string quote, escape, tl, tr;
    bool multiline = false;
};

struct Split {
    std::vector<std::string> fields;
    std::string err;   // "", delimiter, escape, mismatch, unterminated
    size_t errpos = 0;
    bool open = false; // quote not terminated
    bool qesc = false; // multiline only: escape at the end of an open quote
    bool ok() const { return err.empty(); }
};

inline Split oracle_split(const Dialect& d, const std::string& s, const std::string& delim) {
    auto in = [](char c, const std::string& set) { return c != 0 && set.find(c) != std::string::npos; };
    auto at = [&](size_t i) { return i < s.size() ? s[i] : '\0'; };
    auto isdelim = [&](size_t i) { return s.compare(i, delim.size(), delim) == 0; };
    auto spanr = [&](size_t i) { while (in(at(i), d.tr)) ++i; return i; };
    Split r;
    if (delim.empty()) {
        r.err = "delimiter";
        return r;
    }
    size_t p = 0;
    while (true) {
        while (in(at(p), d.tl)) ++p;
        std::string cur;
        bool next = false;
        if (in(at(p), d.quote)) {
            size_t e = p + 1;
            while (true) {
                if (in(at(e), d.quote)) {
                    size_t t = spanr(e + 1);
                    if (t < s.size() && isdelim(t)) {
                        r.fields.push_back(cur);
                        p = t + delim.size();
                        next = true;
                        break;
                    }
                    if (in(at(e + 1), d.quote)) {
                        cur += at(e + 1);
                        e += 2;
                        continue;
                    }
                    if (t >= s.size()) {
                        r.fields.push_back(cur);
                        return r;
                    }
                    r.err = "mismatch";
                    r.errpos = e;
                    return r;
                }
                if (in(at(e), d.escape)) {
                    if (e + 1 >= s.size()) {
                        if (!d.multiline) r.err = "escape";
                        else r.qesc = true;
                        return r;
                    }
                    cur += at(e + 1);
                    e += 2;
                    continue;
                }
                if (e >= s.size()) {
                    r.open = true;
                    if (!d.multiline) r.err = "unterminated";
                    return r;
                }
                cur += at(e++);
            }
        } else {
            size_t e = p;
            while (true) {
                size_t t = spanr(e);
                if (t >= s.size()) {
                    r.fields.push_back(cur);
                    return r;
                }
                if (isdelim(t)) {
                    r.fields.push_back(cur);
                    p = t + delim.size();
                    next = true;
                    break;
                }
                cur.append(s, e, t - e);
                if (in(at(t), d.escape)) {
                    if (t + 1 >= s.size()) {
                        cur += at(t);
                        if (!d.multiline) r.err = "escape";
                        e = t + 1;
                        continue;
                    }
                    cur += at(t + 1);
                    e = t + 2;
                    continue;
                }
                cur += at(t);
                e = t + 1;
            }
        }
        if (!next) return r;
    }
}

inline std::string message(const Split& r) {
    if (r.err == "delimiter") return "empty delimiter";
    if (r.err == "escape") return "unterminated escape at the end of the line";
    if (r.err == "unterminated") return "unterminated quote";
    if (r.err == "mismatch") return "mismatched quote at position: " + std::to_string(r.errpos);
    return "";
}

inline std::string show(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
