// Search for an input and a sequence of operations on which the real parser differs from the specification.
// -DOPTS=... the parser's options; Q E TL TR ML MODE LIMIT IE IH describe them to the specification
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <memory>
#include <random>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#include "refparser.hpp"
#include <ss/parser.hpp>
using P = ss::parser<OPTS>;
static const Setup O{{Q, E, TL, TR, ML}, LIMIT, IE, IH, MODE};

#include "refconv.hpp"

struct One { std::string s; };
struct Obj { int a; std::string b; };
static std::string rep(const Obj& o) { return "(" + rep(o.a) + " " + rep(o.b) + " )"; }
struct Tied { int a; std::string b; auto tied() { return std::tie(a, b); } };
static std::string rep(const Tied& o) { return "(" + rep(o.a) + " " + rep(o.b) + " )"; }

// ---- reporting -----------------------------------------------------------------
static std::string cur_in, cur_delim, cur_ops;
static void dump(const char* what, const std::string& want, const std::string& got) {
    printf("\nFOUND {\"what\": %s, \"input\": %s, \"delimiter\": %s, \"operations\": %s, \"expected\": %s, \"got\": %s}\n", show(what).c_str(),
           show(cur_in).c_str(), show(cur_delim).c_str(), show(cur_ops).c_str(), show(want).c_str(), show(got).c_str());
    fflush(stdout);
}
extern "C" void __asan_on_error() { dump("memory error", "", ""); }
static void onabrt(int) { dump("memory error", "", ""); _exit(3); }
static std::vector<std::string> kinds;
static unsigned long long evals = 0, other = 0, rows_ok = 0, rows_bad = 0, multi = 0, mapped = 0;
// a difference of another kind ends the current sequence, it is not what we look for
struct Stop {};
static bool bysource = false;       // look for differences between file and buffer only
static std::vector<std::string> trace;
static std::string unnamed(const std::string& s, const std::string& name) {
    return s.compare(0, name.size(), name) == 0 ? s.substr(name.size()) : s;
}
static bool mapping_now = false;
// look for what moving a parser changes: sequences which are right as long as nothing is moved
static bool bymove = false, still = false, wrong = false;
static void differ(const std::string& what0, const std::string& want, const std::string& got) {
    if (bysource) {
        if (what0 == "unexpected bad_alloc") { dump(what0.c_str(), want, got); _exit(3); }
        return;
    }
    if (still) { wrong = true; throw Stop{}; }
    std::string what = mapping_now ? "header mapping: " + what0 : what0;
    if (bymove) what = "move: " + what;
    for (auto& k : kinds) if (what.find(k) != std::string::npos) { dump(what.c_str(), want, got); _exit(3); }
    if (kinds.empty()) { dump(what.c_str(), want, got); _exit(3); }
    ++other;
    throw Stop{};
}

// the position of a misplaced quote is specified for rows of one line; what is left of an old error at the end of the input is not
static bool same_message(const std::string& want, const std::string& got, bool multi) {
    static const std::string q = "mismatched quote at position: ";
    size_t k = want.find(q);
    if (multi && k != std::string::npos) return got.substr(0, k + q.size()) == want.substr(0, k + q.size());
    return want == got;
}

// ---- one sequence ----------------------------------------------------------------
static std::string scratch;
struct Run {
    Ref ref;
    std::unique_ptr<P> p;
    bool file;
    std::string buf;
    std::mt19937& g;
    size_t firstread;

    static std::string fname() { return scratch; }
    Run(const std::string& in, const std::string& delim, bool f, std::mt19937& r)
        : ref(O, in, f ? fname() : "CSV data buffer", delim), file(f), buf(in), g(r) {
        if (f) {
            FILE* x = fopen(fname().c_str(), "wb");
            fwrite(in.data(), 1, in.size(), x);
            fclose(x);
            p = std::make_unique<P>(fname(), delim);
        } else {
            // exact block: reads behind it are seen
            data.reset(new char[in.size() ? in.size() : 1]);
            memcpy(data.get(), in.data(), in.size());
            p = std::make_unique<P>(data.get(), in.size(), delim);
        }
        same("construction");
    }
    std::unique_ptr<char[]> data;

    void same(const char* op) {
        if (bysource) {
            std::string t = std::string("after ") + op + ": eof " + (p->eof() ? "1" : "0") + " line " + std::to_string(p->line()) + " position " + std::to_string(p->position()) + " valid " + (p->valid() ? "1" : "0");
#if MODE == 1
            t += " " + unnamed(p->error_msg(), ref.name);
#endif
            trace.push_back(t);
            return;
        }
        if (p->eof() != ref.eof) differ(std::string("eof after ") + op, ref.eof ? "true" : "false", p->eof() ? "true" : "false");
        if (p->line() != ref.line()) differ(std::string("line() after ") + op, std::to_string(ref.line()), std::to_string(p->line()));
        if (p->position() != ref.position) differ(std::string("position() after ") + op, std::to_string(ref.position), std::to_string(p->position()));
        if (MODE != 2 && p->valid() != ref.error.empty()) differ(std::string("validity after ") + op + " (" + lastwhat + ")", ref.error.empty() ? "valid" : ref.error, p->valid() ? "valid" : "invalid");
#if MODE == 1
        if (atend && !ref.error.empty() && !p->valid()) ref.error = p->error_msg();
        if (!same_message(ref.error, p->error_msg(), joined())) differ(std::string("message after ") + op + " (" + lastwhat + ")", ref.error, p->error_msg());
#endif
    }
    std::string lastwhat;
    bool atend = false;     // a substitute conversion was tried at the end of the input
    bool joined() const { return ref.row.text.find('\n') != std::string::npos; }

    // reference get_next
    template <typename... Ts> Out rnext() {
        Out o;
        if (ref.eof) {
            ref.row = Row{};
            ref.row.line = ref.lineno;
            o.err = ref.name + ": read on end of file";
            o.what = "end of file";
        } else {
            ref.parse();
            if (ref.row.text.find('\n') != std::string::npos) ++multi;
            o = CRow<Ts...>::go(ref.at(ref.row.line), ref.row, ref.mapping, ref.ncols);
            ref.read();
        }
        (o.ok ? rows_ok : rows_bad)++;
        ref.error = o.err;
        lastwhat = o.what;
        return o;
    }
    template <typename F> void compare(const char* op, const Out& w, F f) {
        std::string got;
        bool threw = false, ok;
        try {
            got = f();
            ok = p->valid();
        } catch (ss::exception& e) {
            threw = true;
            got = e.what();
            ok = false;
        }
        if (bysource) trace.push_back(std::string(op) + (threw ? " throws " : " gives ") + unnamed(got, ref.name));
        if (threw && MODE != 2) differ("exception in another error mode", "", got);
        if (ok != w.ok) differ(std::string("validity after ") + op + " (" + w.what + ")", w.ok ? "valid " + w.val : w.err, ok ? "valid " + got : "invalid");
        if (w.ok && got != w.val) differ(std::string("value of ") + op, w.val, got);
        if (threw && !same_message(w.err, got, joined())) differ(std::string("message after ") + op + " (" + w.what + ")", w.err, got);
    }
    template <typename... Ts> void get() {
        Out w = rnext<Ts...>();
        compare("get_next", w, [&] { return rep(p->template get_next<Ts...>()); });
        same("get_next");
    }
    void object() {
        Out w = rnext<int, std::string>();
        compare("get_object", w, [&] { return rep(p->template get_object<Obj, int, std::string>()); });
        same("get_object");
    }
    void tied() {
        Out w = rnext<int, std::string>();
        compare("get_next", w, [&] { return rep(p->template get_next<Tied>()); });
        same("get_next");
    }
    void ignore() {
        cur_ops += " ignore_next";
        bool w = ref.ignore_next();
        bool got = p->ignore_next();
        lastwhat = "ignore_next";
        if (w != got) differ("result of ignore_next", w ? "true" : "false", got ? "true" : "false");
        same("ignore_next");
    }
    void move() {
        cur_ops += " move";
        unsigned how = g() % 4;
        if (still) return;
        auto q = std::make_unique<P>(std::move(*p));
        if (how == 0) {         // there and back
            cur_ops += "-and-back";
            *p = std::move(*q);
        } else if (how == 1) {  // over the one moved from, and on
            cur_ops += "-twice";
            P x(std::move(*q));
            *q = std::move(x);
            p = std::move(q);
        } else p = std::move(q);
        same("move");
    }
    void assign(const std::string& other_in) {
        cur_ops += " move-assign";
        std::mt19937 h(g());
        if (still) return;
        // the target holds a file or a buffer and has read something
        static std::string keep;
        keep = other_in;
        auto other = [&]() {
            std::unique_ptr<P> q;
            if (h() % 2) q = std::make_unique<P>(keep.data(), keep.size(), ref.delim);
            else {
                std::string fn = scratch + "2";
                FILE* x = fopen(fn.c_str(), "wb");
                fwrite(keep.data(), 1, keep.size(), x);
                fclose(x);
                q = std::make_unique<P>(fn, ref.delim);
            }
            try {
                for (unsigned n = h() % 3; n && !q->eof(); --n) (void)q->template get_next<std::string, std::string>();
            } catch (ss::exception&) {
            }
            return q;
        };
        auto q = other();
        if (h() % 3 == 0) {     // exchanged by way of a third one
            P x(std::move(*q));
            *q = std::move(*p);
            *p = std::move(x);
        } else *q = std::move(*p);
        std::unique_ptr<P> old = std::move(p);
        p = std::move(q);
        same("move assignment");
        if (h() % 2) { *old = std::move(*other()); same("move assignment"); }
    }
#if MODE != 2
    void tries() {
        cur_ops += " try_next<int>.or_else<string>.or_else<int,string>";
        int calls = 0, want = 0;
        bool refuse = g() % 3 == 0;
        atend = ref.eof;
        Out a = rnext<int>(), b, c;
        bool va = a.ok;
        std::string rerr = ref.name + ": failed check";
        if (va) { ++want; if (refuse) { va = false; ref.error = rerr; } }
        bool vb = false, vc = false;
        auto again = [&](Out& o) { ref.error = o.err; };
        if (!va) { b = CRow<std::string>::go(ref.at(ref.row.line), ref.row, ref.mapping, ref.ncols); again(b); vb = b.ok; }
        if (!va && !vb) { c = CRow<int, std::string>::go(ref.at(ref.row.line), ref.row, ref.mapping, ref.ncols); again(c); vc = c.ok; }
        auto x = p->template try_next<int>([&](int&) { ++calls; return !refuse; }).template or_else<std::string>().template or_else<int, std::string>();
        auto [v1, v2, v3] = x.values();
        { auto [y1, y2, y3] = x.values(); if (rep(y1) != rep(v1) || rep(y2) != rep(v2) || rep(y3) != rep(v3)) differ("values of or_else taken again", rep(v1) + rep(v2) + rep(v3), rep(y1) + rep(y2) + rep(y3)); }
        auto cmp = [&](const char* n, bool ok, const Out& o, const std::string& got) {
            std::string w = ok ? "some(" + o.val + ")" : "none";
            if (got != w) differ(std::string("value of ") + n, w, got);
        };
        cmp("try_next", va, a, rep(v1));
        cmp("or_else", vb, b, rep(v2));
        cmp("second or_else", vc, c, rep(v3));
        if (calls != want) differ("calls of the function of try_next", std::to_string(want), std::to_string(calls));
        int err = 0;
#if MODE == 1
        x.on_error([&](const std::string& e) { ++err; if (e != p->error_msg()) differ("message after on_error", p->error_msg(), e); });
#else
        x.on_error([&] { ++err; });
#endif
        if (err != !(va || vb || vc)) differ("calls of on_error", "", "");
        lastwhat = "try_next";
        same("try_next");
        atend = false;
    }
#endif
#if MODE != 2
    // the same with objects, functions of several parts, functions which change the value, and a void function
    void tries2() {
        cur_ops += " try_object<Obj,int,string>(refuse?).or_else<string,string>(refuse?).or_object<One,string>(void)";
        int calls = 0, calls2 = 0, calls3 = 0, want = 0, want2 = 0, want3 = 0;
        bool refuse = g() % 3 == 0, refuse2 = g() % 3 == 0;
        atend = ref.eof;
        Out a = rnext<int, std::string>(), b, c;
        bool va = a.ok, vb = false, vc = false;
        std::string rerr = ref.name + ": failed check";
        if (va) { ++want; if (refuse) { va = false; ref.error = rerr; } }
        auto again = [&](Out& o) { ref.error = o.err; };
        if (!va) {
            b = CRow<std::string, std::string>::go(ref.at(ref.row.line), ref.row, ref.mapping, ref.ncols);
            again(b);
            vb = b.ok;
            if (vb) { ++want2; if (refuse2) { vb = false; ref.error = rerr; } }
        }
        if (!va && !vb) {
            c = CRow<std::string>::go(ref.at(ref.row.line), ref.row, ref.mapping, ref.ncols);
            again(c);
            vc = c.ok;
            if (vc) ++want3;
        }
        std::string seen, seen2, seen3;
        auto x = p->template try_object<Obj, int, std::string>([&](const Obj& o) { ++calls; seen = rep(o); return !refuse; })
                     .template or_else<std::string, std::string>([&](std::string& s, const std::string& t) { ++calls2; seen2 = rep(s) + " " + rep(t); s += "!"; return !refuse2; })
                     .template or_object<One, std::string>([&](One& o) { ++calls3; seen3 = o.s; o.s += "?"; });
        auto [v1, v2, v3] = x.values();
        std::string w1 = va ? "some(" + a.val + ")" : "none", g1 = v1 ? "some(" + rep(*v1) + ")" : "none";
        if (w1 != g1) differ("value of try_object", w1, g1);
        std::string g2 = "none", w2 = vb ? b.val : "none";
        if (v2) {
            if (std::get<0>(*v2).empty() || std::get<0>(*v2).back() != '!') differ("value of or_else, changed by its function", "", "");
            else { std::get<0>(*v2).pop_back(); g2 = rep(*v2); }
        }
        if (w2 != g2) differ("value of or_else", w2, g2);
        std::string g3 = "none", w3 = vc ? c.val : "none";
        if (v3) {
            if (v3->s.empty() || v3->s.back() != '?') differ("value of or_object, changed by its function", "", "");
            else { v3->s.pop_back(); g3 = rep(v3->s); }
        }
        if (w3 != g3) differ("value of or_object", w3, g3);
        if (calls != want || (want && seen != a.val)) differ("calls of the function of try_object", std::to_string(want), std::to_string(calls));
        if (calls2 != want2) differ("calls of the function of or_else", std::to_string(want2), std::to_string(calls2));
        if (calls3 != want3) differ("calls of the function of or_object", std::to_string(want3), std::to_string(calls3));
        int err = 0;
        x.on_error([&] { ++err; });
        if (err != !(va || vb || vc)) differ("calls of on_error", "", "");
        lastwhat = "try_object";
        same("try_object");
        atend = false;
    }
#endif
    // rows of which no field is converted give a default value
    static bool nothing(const Out& w) { return !w.ok && (w.what == "row error" || w.what == "number of columns" || w.what == "mapping"); }
    template <typename T> void iter() {
        cur_ops += " iterate";
        size_t max = g() % 6, n = 0;
        try {
            for (auto&& v : p->template iterate<T, std::string>()) {
                if (ref.eof) differ("iteration yields a row at the end", "", rep(v));
                Out w = rnext<T, std::string>();
                if (MODE != 2 || p->valid()) if (p->valid() != w.ok) differ(std::string("validity after iteration (") + w.what + ")", w.ok ? w.val : w.err, p->valid() ? rep(v) : "invalid");
                if (w.ok && rep(v) != w.val) differ("value of iteration", w.val, rep(v));
                if (nothing(w) && rep(v) != rep(std::tuple<T, std::string>{})) differ("value of iteration for a failed row", rep(std::tuple<T, std::string>{}), rep(v));
                same("iteration");
                if (n++ == max) {
                    // break out, the next row is still to come
                    return;
                }
            }
        } catch (ss::exception& e) {
            if (MODE != 2) differ("exception in another error mode", "", e.what());
            Out w = rnext<T, std::string>();
            if (w.ok) differ(std::string("validity after iteration (") + w.what + ")", w.val, e.what());
            if (!same_message(w.err, e.what(), joined())) differ(std::string("message after iteration (") + w.what + ")", w.err, e.what());
            same("iteration");
            return;
        }
        if (!ref.eof) differ("iteration ends early", "", "");
        same("iteration");
    }
    void iterobj() {
        cur_ops += " iterate_object";
        size_t n = 0;
        try {
            for (auto&& v : p->template iterate_object<Obj, int, std::string>()) {
                if (ref.eof) differ("iteration yields a row at the end", "", rep(v));
                Out w = rnext<int, std::string>();
                if (p->valid() != w.ok) differ(std::string("validity after iteration (") + w.what + ")", w.ok ? w.val : w.err, p->valid() ? rep(v) : "invalid");
                if (w.ok && rep(v) != w.val) differ("value of iteration", w.val, rep(v));
                if (nothing(w) && rep(v) != rep(Obj{})) differ("value of iteration for a failed row", rep(Obj{}), rep(v));
                same("iteration");
                if (n++ == 2) return;
            }
        } catch (ss::exception& e) {
            Out w = rnext<int, std::string>();
            if (w.ok || !same_message(w.err, e.what(), joined())) differ("message after iteration", w.err, e.what());
            same("iteration");
            return;
        }
        if (!ref.eof) differ("iteration ends early", "", "");
    }
#if !IH
    bool header_ok(std::string& err) {
        // fields of the header; false and an error if it cannot be used
        Dialect d = O.d;
        d.multiline = false;
        if (!ref.header.empty()) return true;
        Split s = oracle_split(d, ref.raw_header, ref.delim);
        if (!s.ok()) { err = ref.name + ": failed header parsing: " + message(s); return false; }
        for (size_t i = 0; i < s.fields.size(); ++i)
            for (size_t j = 0; j < i; ++j)
                if (s.fields[i] == s.fields[j]) { err = ref.name + ": header contains duplicate: " + s.fields[i]; return false; }
        ref.header = s.fields;
        return true;
    }
    void head() {
        cur_ops += " header";
        Dialect d = O.d;
        d.multiline = false;
        Split s = oracle_split(d, ref.raw_header, ref.delim);
        ref.error = s.ok() ? "" : ref.name + ": failed header parsing: " + message(s);
        std::vector<std::string> got;
        bool threw = false;
        try { got = p->header(); }
        catch (ss::exception& e) { threw = true; if (e.what() != ref.error) differ("header message", ref.error, e.what()); }
        if (MODE == 2 && threw != !s.ok()) differ("header validity", ref.error, "");
        if (s.ok() ? got != s.fields : !got.empty()) differ("header fields", "", "");
        if (p->raw_header() != ref.raw_header) differ("header text", ref.raw_header, p->raw_header());
        lastwhat = "header";
        if (MODE == 2) ref.error = "";
        same("header");
    }
    void exists(const std::string& f) {
        cur_ops += " field_exists(" + f + ")";
        std::string err;
        bool ok = header_ok(err), w = false;
        if (ok) for (auto& x : ref.header) w = w || x == f;
        ref.error = ok ? "" : err;
        bool got = false, threw = false;
        try { got = p->field_exists(f); }
        catch (ss::exception& e) { threw = true; if (e.what() != ref.error) differ("header message", ref.error, e.what()); }
        if (MODE == 2 && threw != !ok) differ("header validity", ref.error, "");
        if (got != w) differ("header field_exists", w ? "true" : "false", got ? "true" : "false");
        lastwhat = "header field_exists";
        if (MODE == 2) ref.error = "";
        same("field_exists");
    }
    void use(const std::vector<std::string>& fs) {
        cur_ops += " use_fields(";
        for (auto& f : fs) cur_ops += f + " ";
        cur_ops += ")";
        std::string err;
        bool ok = true;
        if (ref.header.empty() && !ref.eof) ok = header_ok(err);
        std::vector<size_t> m;
        for (auto& f : fs) {
            if (!ok) break;
            size_t c = 0, at = ref.header.size();
            for (auto& x : fs) c += x == f;
            for (size_t i = 0; i < ref.header.size(); ++i) if (ref.header[i] == f && at == ref.header.size()) at = i;
            if (c > 1) { ok = false; err = ref.name + ": given field used multiple times: " + f; }
            else if (at == ref.header.size()) { ok = false; err = ref.name + ": header does not contain given field: " + f; }
            m.push_back(at);
        }
        if (ok && fs.empty()) { ok = false; err = "received invalid argument for 'use_fields'"; }
        if (ok) {
            ++mapped;
            mapping_now = true;
            ref.mapping = m;
            ref.ncols = ref.header.size();
            if (ref.line() == ref.header_line) ref.ignore_next();
        }
        ref.error = ok ? "" : err;
        bool threw = false;
        try {
            if (fs.size() == 0) p->use_fields();
            if (fs.size() == 1) p->use_fields(fs[0]);
            if (fs.size() == 2) p->use_fields(fs[0], fs[1]);
            if (fs.size() == 3) p->use_fields(fs[0], fs[1], fs[2]);
        } catch (ss::exception& e) { threw = true; if (e.what() != ref.error) differ("header message", ref.error, e.what()); }
        if (MODE == 2 && threw != !ok) differ("header use_fields validity", ref.error, "");
        lastwhat = "header use_fields";
        if (MODE == 2) ref.error = "";
        same("header use_fields");
    }
#endif
};

// the lowest descriptor which is free, and memory nobody refers to
static int descriptor() {
    int d = dup(1);
    if (d >= 0) close(d);
    return d;
}
static void sequence1(const std::string& in, const std::string& delim, bool file, std::mt19937& g, size_t nops, int style) {
    cur_in = in;
    cur_delim = delim;
    cur_ops = file ? "file" : "buffer";
    // what an earlier call of the program may have left in errno
    bool dirty = in.size() % 4 == 3;
    if (dirty) { cur_ops += " (errno is ENOMEM before every operation)"; errno = ENOMEM; }
    ++evals;
    mapping_now = false;
    try {
        Run r(in, delim, file, g);
        std::vector<std::string> names = {"a", "b", "c", "", "1", "ab", "\"a\""};
        for (auto& x : r.ref.header) names.push_back(x);
        {
            Dialect d = O.d;
            Split s = oracle_split(d, r.ref.raw_header, delim);
            for (auto& x : s.fields) { names.push_back(x); names.push_back(x); }
        }
        int after = 0;
        for (size_t k = 0; k < nops; ++k) {
            if (dirty) errno = ENOMEM;
            if (r.ref.eof && ++after > 3) break;
            if (MODE == 2) r.ref.error = "";
            unsigned x = g() % 24;
            if (style == 1) x = g() % 3;
            if (bymove && g() % 3 == 0) { if (g() % 2) r.move(); else r.assign(in.substr(0, g() % (in.size() + 1))); }
            if (!r.ref.eof && g() % 4) {
                // a type list which fits the row
                Ref c = r.ref;
                c.parse();
                size_t n = c.mapping.empty() ? c.row.fields.size() : c.mapping.size();
                static const unsigned one[] = {0, 14, 17, 22}, two[] = {1, 1, 2, 2, 4, 5, 5, 6, 7, 8, 9, 10, 12, 21, 17, 22}, three[] = {3, 11, 24, 24};
                if (n == 1) x = one[g() % 4];
                if (n == 2) x = two[g() % 16];
                if (n == 3) x = three[g() % 4];
            }
#if !IH
            if (style == 2 && k == 0) x = 18;
#endif
            switch (x) {
            case 0: case 14: cur_ops += " get_next<string>"; r.get<std::string>(); break;
            case 1: cur_ops += " get_next<string,string>"; r.get<std::string, std::string>(); break;
            case 2: cur_ops += " get_next<int,string>"; r.get<int, std::string>(); break;
            case 3: cur_ops += " get_next<string,void,int>"; r.get<std::string, void, int>(); break;
            case 4: cur_ops += " get_next<ax<int,5>,ne<string>>"; r.get<ss::ax<int, 5>, ss::ne<std::string>>(); break;
            case 5: cur_ops += " get_next<optional<int>,variant<int,char,string>>"; r.get<std::optional<int>, std::variant<int, char, std::string>>(); break;
            case 6: cur_ops += " get_next<bool,char>"; r.get<bool, char>(); break;
            case 7: cur_ops += " get_object<Obj,int,string>"; r.object(); break;
            case 8: cur_ops += " get_next<Tied>"; r.tied(); break;
            case 9: cur_ops += " get_next<nx<char,'a','1'>,ir<int,1,12>>"; r.get<ss::nx<char, 'a', '1'>, ss::ir<int, 1, 12>>(); break;
            case 10: cur_ops += " get_next<double,gt<int,1>>"; r.get<double, ss::gt<int, 1>>(); break;
            case 11: cur_ops += " get_next<lt<int,2>,gte<int,1>,lte<int,1>>"; r.get<ss::lt<int, 2>, ss::gte<int, 1>, ss::lte<int, 1>>(); break;
            case 12: cur_ops += " get_next<void,oor<int,1,12>>"; r.get<void, ss::oor<int, 1, 12>>(); break;
            case 13: r.ignore(); break;
            case 15: r.move(); break;
            case 16: r.assign(in.substr(0, g() % (in.size() + 1))); break;
#if MODE != 2
            case 17: r.tries(); break;
            case 22: r.tries2(); break;
#endif
#if !IH
            case 18: case 23: {
                std::vector<std::string> fs;
                for (size_t n = g() % 4; n; --n) fs.push_back(names[g() % names.size()]);
                r.use(fs);
                break;
            }
            case 19: r.exists(names[g() % names.size()]); break;
            case 20: r.head(); break;
#endif
            case 21: if (g() % 2) r.iter<int>(); else if (g() % 2) r.iter<std::string>(); else r.iterobj(); break;
            default: cur_ops += " get_next<string,string,string>"; r.get<std::string, std::string, std::string>(); break;
            }
        }
    } catch (Stop&) {
    } catch (ss::exception& e) {
        differ("unexpected exception", "", e.what());
    } catch (std::bad_alloc& e) {
        differ("unexpected bad_alloc", "", e.what());
    }
}

static void sequence(const std::string& in, const std::string& delim, bool file, std::mt19937& g, size_t nops, int style) {
    if (!bymove) return sequence1(in, delim, file, g, nops, style);
    std::mt19937 h = g;
    still = true;
    wrong = false;
    sequence1(in, delim, file, h, nops, style);
    still = false;
    if (wrong) { ++other; return; }
    int d = descriptor();
    size_t n = __sanitizer_get_current_allocated_bytes();
    sequence1(in, delim, file, g, nops, style);
    if (descriptor() != d) { dump("resource: a file is left open", "", ""); _exit(3); }
    if (__sanitizer_get_current_allocated_bytes() > n && __lsan_do_recoverable_leak_check()) { dump("resource: memory is not released", "", ""); _exit(3); }
}

// the same operations on a file and on a buffer
static void both(const std::string& in, const std::string& delim, unsigned seed, size_t nops, int style) {
    std::vector<std::string> d[2];
    for (int f = 0; f < 2; ++f) {
        std::mt19937 h(seed);
        trace.clear();
        sequence(in, delim, f == 0, h, nops, style);
        d[f] = trace;
    }
    for (size_t k = 0; k < d[0].size() || k < d[1].size(); ++k) {
        std::string x = k < d[0].size() ? d[0][k] : "", y = k < d[1].size() ? d[1][k] : "";
        if (x != y) {
            cur_ops = "both" + (cur_ops.find(' ') == std::string::npos ? "" : cur_ops.substr(cur_ops.find(' ')));
            dump("source: file and buffer differ", "file: " + x, "buffer: " + y);
            _exit(3);
        }
    }
}

int main(int argc, char** argv) {
    double budget = argc > 1 ? atof(argv[1]) : 20;
    unsigned seed = argc > 2 ? atoi(argv[2]) : 1;
    for (int i = 3; i < argc; ++i) kinds.push_back(argv[i]);
    if (!kinds.empty() && kinds[0] == "source") bysource = true;
    if (!kinds.empty() && kinds[0] == "move") bymove = true;
    if (!kinds.empty()) kinds.push_back("memory");
    signal(SIGABRT, onabrt);
    signal(SIGALRM, [](int) { dump("does not terminate", "", ""); _exit(3); });
    char cwd[4096];
    scratch = std::string(getcwd(cwd, sizeof cwd)) + "/in.csv";
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::mt19937 g(seed);
    std::string alpha = "a,1\n";
    for (const std::string& x : {O.d.quote, O.d.escape, O.d.tl, O.d.tr})
        for (char c : x.substr(0, 1)) if (alpha.find(c) == std::string::npos) alpha += c;
    alpha += '\r';
    // exhaustive short inputs, fixed sequences
    size_t len = 0;
    unsigned long long ex = 0;
    for (; len <= 7; ++len) {
        double total = 1;
        for (size_t i = 0; i < len; ++i) total *= alpha.size();
        if (total > 4e5) break;
        std::vector<size_t> ix(len, 0);
        std::string in(len, alpha[0]);
        bool stop = false;
        while (true) {
            if ((ex++ & 63) == 0) { alarm(10); if (left() < budget * 0.6) { stop = true; break; } }
            g.seed(seed * 7919 + ex);
            if (bysource) both(in, ",", g(), 8, 1 + g() % 2);
            else {
            sequence(in, ",", false, g, 8, 1 + g() % 2);
            if (len <= 3) { sequence(in, ",", true, g, 8, 1 + g() % 2); sequence(in, ",", false, g, 8, 0); }
            }
            size_t k = 0;
            for (; k < len; ++k) {
                if (++ix[k] < alpha.size()) { in[k] = alpha[ix[k]]; break; }
                ix[k] = 0;
                in[k] = alpha[0];
            }
            if (k == len) break;
        }
        if (stop) break;
    }
    const char* delims[] = {",", ",", ",", ";", "::", ",,", ", ", "a,"};
    const char* texts[] = {"5", "1", "12", "13", "-1", "0", "2147483647", "2147483648", "-2147483648", "-2147483649", "007", "true", "false", "a", "abc", "", "", "1.5", "-2e3", "x y", "99999999999999999999", "+1", "1a", "0x1"};
    while (left() > 0) {
        alarm(20);
        for (int r = 0; r < 100; ++r) {
            std::string delim = delims[g() % (sizeof delims / sizeof *delims)];
            std::string in;
            size_t lines = g() % 9;
            int crlf = g() % 3;
            for (size_t i = 0; i < lines; ++i) {
                std::string l;
                int style = g() % 8;
                if (style == 0) {}      // empty
                else if (style == 1) {
                    for (size_t n = g() % 12; n; --n) l += alpha[g() % alpha.size()];
                } else {
                    size_t nf = 1 + g() % 3;
                    if (i == 0 && g() % 2) nf = 3;
                    for (size_t f = 0; f < nf; ++f) {
                        if (f) l += delim;
                        std::string t = i == 0 && g() % 2 ? std::string(1, "abc"[f]) : texts[g() % (sizeof texts / sizeof *texts)];
                        if (g() % 6 == 0) for (size_t n = g() % 5; n; --n) t += alpha[g() % alpha.size()];
                        if (g() % 40 == 0) t.append(g() % 300, 'x');
                        if (!O.d.quote.empty() && g() % 3 == 0) {
                            std::string q;
                            char c = O.d.quote[g() % O.d.quote.size()];
                            for (char y : t) { if (y == c) q += y; q += y; }
                            if (g() % 3 == 0) q.insert(g() % (q.size() + 1), g() % 2 ? "\r\n" : "\n");
                            if (g() % 3 == 0 && !O.d.escape.empty()) q.insert(g() % (q.size() + 1), std::string(1, O.d.escape[0]) + alpha[g() % alpha.size()]);
                            t = c + q + (g() % 12 ? std::string(1, c) : "");
                        } else if (!O.d.escape.empty() && g() % 5 == 0) {
                            t.insert(g() % (t.size() + 1), std::string(1, O.d.escape[0]) + (g() % 2 ? "\n" : std::string(1, alpha[g() % alpha.size()])));
                        }
                        if (!O.d.tl.empty() && g() % 6 == 0) t = O.d.tl[0] + t;
                        if (!O.d.tr.empty() && g() % 6 == 0) t += O.d.tr[0];
                        l += t;
                    }
                    if (!O.d.escape.empty() && g() % 12 == 0) l += O.d.escape[0];
                }
                in += l;
                if (i + 1 < lines || g() % 3) in += (crlf == 0 || (crlf == 1 && g() % 2)) ? "\n" : "\r\n";
            }
            size_t nops = 1 + g() % 14;
            unsigned s2 = g();
            if (bysource) { if (r % 3 == 0 && !in.empty()) in[g() % in.size()] = 0; both(in, delim, s2, nops, s2 % 5 == 0 ? 2 : s2 % 7 == 0 ? 1 : 0); continue; }
            for (int f = 0; f < 2; ++f) {
                std::mt19937 h(s2);
                if (f && r % 4) break;
                sequence(in, delim, f, h, nops, s2 % 5 == 0 ? 2 : s2 % 7 == 0 ? 1 : 0);
            }
        }
    }
    printf("DONE {\"evaluations\": %llu, \"exhaustive\": %llu, \"length\": %zu, \"rows\": %llu, \"failed_rows\": %llu, \"multiline_rows\": %llu, \"mappings\": %llu, \"other\": %llu}\n", evals, ex, len ? len - 1 : 0, rows_ok, rows_bad, multi, mapped, other);
}
