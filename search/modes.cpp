// Search for an input and operations on which the three error modes of the real code do not agree.
// -DBASE0=... BASE1=... BASE2=... the options with each error mode, ALPHA the characters of interest, IH ignore_header
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unistd.h>
#include <ss/parser.hpp>

static std::string show(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string cur_in, cur_delim, cur_ops;
static void dump(const char* what, const std::string& want, const std::string& got) {
    printf("\nFOUND {\"what\": %s, \"input\": %s, \"delimiter\": %s, \"operations\": %s, \"expected\": %s, \"got\": %s}\n", show(what).c_str(),
           show(cur_in).c_str(), show(cur_delim).c_str(), show(cur_ops).c_str(), show(want).c_str(), show(got).c_str());
    fflush(stdout);
}
extern "C" void __asan_on_error() { dump("memory error", "", ""); }
static void onabrt(int) { dump("memory error", "", ""); _exit(3); }

static std::string rep(const std::string& s) { return "'" + s + "'"; }
static std::string rep(bool b) { return b ? "true" : "false"; }
static std::string rep(char c) { return std::string("c") + c; }
static std::string rep(int i) { return std::to_string(i); }
static std::string rep(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
template <typename T> static std::string rep(const std::optional<T>& o) { return o ? "some " + rep(*o) : "none"; }
template <typename... T> static std::string rep(const std::variant<T...>& v) { return std::to_string(v.index()) + ":" + std::visit([](auto& x) { return rep(x); }, v); }
template <typename... T> static std::string rep(const std::tuple<T...>& t) { return "(" + std::apply([](auto&... x) { return ((rep(x) + " ") + ... + ""); }, t) + ")"; }
struct Obj { int a; std::string b; };
static std::string rep(const Obj& o) { return rep(o.a) + rep(o.b); }
struct Tied { int a; std::string b; auto tied() { return std::tie(a, b); } };
static std::string rep(const Tied& o) { return rep(o.a) + rep(o.b); }

// what is seen of one operation; err: the message where the mode has one
struct Seen { std::string op, val, err, state; bool ok = true, msg = false; };

static std::string scratch;
template <int MODE, typename P, typename C> struct Run {
    std::unique_ptr<P> p;
    std::unique_ptr<C> c = std::make_unique<C>();
    std::unique_ptr<char[]> data;
    std::vector<Seen> seen;

    // f() gives the value; reports tells whether the operation reports errors
    template <typename X, typename F> void op(X& x, const std::string& name, F f) {
        Seen s;
        s.op = name;
        try {
            s.val = f();
            s.ok = MODE == 2 || x.valid();
            if constexpr (MODE == 1) if (!s.ok) { s.err = x.error_msg(); s.msg = true; }
        } catch (ss::exception& e) {
            if (MODE != 2) { dump("mode: exception in another error mode", "", e.what()); _exit(3); }
            s.ok = false;
            s.err = e.what();
            s.msg = true;
        }
        if (!s.ok) s.val = "";
        push(s);
    }
    void push(Seen s) {
        if (p) s.state = std::string("eof ") + (p->eof() ? "1" : "0") + " line " + std::to_string(p->line()) + " position " + std::to_string(p->position());
        seen.push_back(s);
    }
    template <typename... T> void get(const char* n) { op(*p, n, [&] { return rep(p->template get_next<T...>()); }); }
    template <typename... T> void conv(const char* n, const std::string& l, const std::string& d) {
        std::vector<char> line(l.c_str(), l.c_str() + l.size() + 1);
        op(*c, n, [&] { return rep(c->template convert<T...>(line.data(), d)); });
    }
    template <typename... T> void iter(size_t most) {
        for (size_t n = 0; n < most && !p->eof();) {
            try {
                for (auto& v : p->template iterate<T...>()) {
                    Seen s;
                    s.op = "iterate";
                    s.ok = MODE == 2 || p->valid();
                    if (s.ok) s.val = rep(v);
                    if constexpr (MODE == 1) if (!s.ok) { s.err = p->error_msg(); s.msg = true; }
                    push(s);
                    if (++n >= most) break;
                }
            } catch (ss::exception& e) {
                if (MODE != 2) { dump("mode: exception in another error mode", "", e.what()); _exit(3); }
                Seen s;
                s.op = "iterate";
                s.ok = false;
                s.err = e.what();
                s.msg = true;
                push(s);
                ++n;
            }
        }
    }

    void go(const std::string& in, const std::string& delim, int source, std::mt19937 g, size_t nops) {
        Seen s;
        s.op = "construction";
        try {
            if (source == 2) p = std::make_unique<P>(scratch + ".none", delim);
            else if (source == 3) p = std::make_unique<P>(nullptr, 3, delim);
            else if (source == 1) p = std::make_unique<P>(scratch, delim);
            else {
                data.reset(new char[in.size() ? in.size() : 1]);
                memcpy(data.get(), in.data(), in.size());
                p = std::make_unique<P>(data.get(), in.size(), delim);
            }
            s.ok = MODE == 2 || p->valid();
            if constexpr (MODE == 1) if (!s.ok) { s.err = p->error_msg(); s.msg = true; }
        } catch (ss::exception& e) {
            if (MODE != 2) { dump("mode: exception in another error mode", "", e.what()); _exit(3); }
            s.ok = false;
            s.err = e.what();
            s.msg = true;
        }
        if (!s.ok) p.reset();
        push(s);
        if (!p) return;
        std::vector<std::string> names = {"a", "b", "c", "", "1", "5"};
        for (auto& x : split(in.substr(0, in.find('\n')), delim)) { names.push_back(x); names.push_back(x); }
        auto lines = split(in, "\n");
        for (size_t k = 0; k < nops; ++k) {
            if (MODE == 0) cur_ops += " ";
            auto note = [&](const char* n) { if (MODE == 0) cur_ops += n; return n; };
            unsigned x = g() % 22;
            switch (x) {
            case 0: get<std::string>(note("get_next<string>")); break;
            case 1: case 2: get<std::string, std::string>(note("get_next<string,string>")); break;
            case 3: case 4: get<int, std::string>(note("get_next<int,string>")); break;
            case 5: get<std::string, std::string, std::string>(note("get_next<string,string,string>")); break;
            case 6: get<int>(note("get_next<int>")); break;
            case 7: get<ss::ax<int, 5>, ss::ne<std::string>>(note("get_next<ax<int,5>,ne<string>>")); break;
            case 8: get<std::optional<int>, std::variant<int, char, std::string>>(note("get_next<optional<int>,variant<int,char,string>>")); break;
            case 9: get<void, double>(note("get_next<void,double>")); break;
            case 10: op(*p, note("get_object<Obj,int,string>"), [&] { return rep(p->template get_object<Obj, int, std::string>()); }); break;
            case 11: op(*p, note("get_next<Tied>"), [&] { return rep(p->template get_next<Tied>()); }); break;
            case 12: {
                Seen t;
                t.op = note("ignore_next");
                t.val = p->ignore_next() ? "true" : "false";
                push(t);
                break;
            }
            case 13: note("iterate<int>"); iter<int>(1 + g() % 5); break;
            case 14: note("iterate<string,string>"); iter<std::string, std::string>(1 + g() % 5); break;
            case 15: case 16: {
                size_t n = lines.empty() ? 0 : g() % lines.size();
                std::string l = lines.empty() ? in : lines[n];
                if (g() % 2) conv<int, std::string>(note("converter: convert<int,string>"), l, delim);
                else if (g() % 2) conv<std::string>(note("converter: convert<string>"), l, delim);
                else conv<std::string, std::string>(note("converter: convert<string,string>"), l, delim);
                break;
            }
#if !IH
            case 17: case 18: {
                std::string a = names[g() % names.size()], b = names[g() % names.size()];
                unsigned n = g() % 3;
                op(*p, note("use_fields"), [&] { if (n == 0) p->use_fields(); else if (n == 1) p->use_fields(a); else p->use_fields(a, b); return std::string(); });
                break;
            }
            case 19: { std::string a = names[g() % names.size()]; op(*p, note("field_exists"), [&] { return rep(p->field_exists(a)); }); break; }
            case 20: op(*p, note("header"), [&] { std::string r; for (auto& y : p->header()) r += rep(y); return r; }); break;
#endif
            default: get<bool, char>(note("get_next<bool,char>")); break;
            }
        }
    }
    static std::vector<std::string> split(const std::string& s, const std::string& d) {
        std::vector<std::string> v;
        size_t p = 0, q;
        while (!d.empty() && (q = s.find(d, p)) != std::string::npos) { v.push_back(s.substr(p, q - p)); p = q + d.size(); }
        v.push_back(s.substr(p));
        return v;
    }
};

static unsigned long long evals = 0, steps = 0, errors = 0;
static void compare(const std::string& in, const std::string& delim, int source, unsigned seed, size_t nops) {
    cur_in = in;
    cur_delim = delim;
    cur_ops = source == 1 ? "file:" : source == 0 ? "buffer:" : "no input:";
    ++evals;
    if (source == 1) {
        FILE* f = fopen(scratch.c_str(), "wb");
        fwrite(in.data(), 1, in.size(), f);
        fclose(f);
    }
    Run<0, ss::parser<BASE0>, ss::converter<BASE0>> a;
    Run<1, ss::parser<BASE1>, ss::converter<BASE1>> b;
    Run<2, ss::parser<BASE2>, ss::converter<BASE2>> c;
    std::mt19937 g(seed);
    a.go(in, delim, source, g, nops);
    b.go(in, delim, source, g, nops);
    c.go(in, delim, source, g, nops);
    auto text = [](const Seen& s) { return s.op + " " + (s.ok ? "ok " + s.val : "error") + " " + s.state; };
    for (size_t k = 0; k < a.seen.size() || k < b.seen.size() || k < c.seen.size(); ++k) {
        ++steps;
        std::string x = k < a.seen.size() ? text(a.seen[k]) : "", y = k < b.seen.size() ? text(b.seen[k]) : "", z = k < c.seen.size() ? text(c.seen[k]) : "";
        if (y != x) { dump("mode: bool and string_error differ", "bool: " + x, "string_error: " + y); _exit(3); }
        if (z != y) { dump("mode: string_error and throw_on_error differ", "string_error: " + y, "throw_on_error: " + z); _exit(3); }
        if (b.seen[k].msg) ++errors;
        if (b.seen[k].msg != c.seen[k].msg || b.seen[k].err != c.seen[k].err) {
            dump("mode: messages of string_error and throw_on_error differ", "string_error: " + b.seen[k].err, "throw_on_error: " + c.seen[k].err);
            _exit(3);
        }
        if (b.seen[k].msg && b.seen[k].err.empty()) { dump("mode: error without a message", "", text(b.seen[k])); _exit(3); }
    }
}

int main(int argc, char** argv) {
    double budget = argc > 1 ? atof(argv[1]) : 20;
    unsigned seed = argc > 2 ? atoi(argv[2]) : 1;
    signal(SIGABRT, onabrt);
    signal(SIGALRM, [](int) { dump("mode: does not terminate", "", ""); _exit(3); });
    char cwd[4096];
    scratch = std::string(getcwd(cwd, sizeof cwd)) + "/in.csv";
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::mt19937 g(seed);
    std::string alpha = std::string("a,1\n\r") + ALPHA;
    for (int s = 2; s < 4; ++s) compare("x", ",", s, 1, 1);
    compare("a,b\n1,2\n", "", 0, 7, 6);
    // every short input
    size_t len = 0;
    unsigned long long ex = 0;
    for (; len <= 6; ++len) {
        std::vector<size_t> ix(len, 0);
        std::string in(len, alpha[0]);
        bool stop = false;
        while (true) {
            if ((ex++ & 63) == 0) { alarm(20); if (left() < budget * 0.7) { stop = true; break; } }
            compare(in, ",", 0, (unsigned)(seed * 7919 + ex), 6);
            size_t k = 0;
            for (; k < len; ++k) {
                if (++ix[k] < alpha.size()) { in[k] = alpha[ix[k]]; break; }
                ix[k] = 0;
                in[k] = alpha[0];
            }
            if (k == len) break;
        }
        if (stop) break;
    }
    const char* delims[] = {",", ",", ",", ",", ";", "::", ",,", "a,", ""};
    const char* texts[] = {"5", "1", "12", "-1", "0", "2147483648", "true", "a", "abc", "", "", "1.5", "x y", "+1", "1a"};
    std::string q = ALPHA;
    while (left() > 0) {
        alarm(20);
        for (int r = 0; r < 50; ++r) {
            std::string delim = delims[g() % (sizeof delims / sizeof *delims)], in;
            size_t lines = g() % 8;
            bool crlf = g() % 3 == 0;
            size_t common = 1 + g() % 3;
            for (size_t i = 0; i < lines; ++i) {
                std::string l;
                if (g() % 8 == 0) for (size_t n = g() % 10; n; --n) l += alpha[g() % alpha.size()];
                else if (g() % 10) for (size_t f = 0, nf = g() % 3 ? common : 1 + g() % 3; f < nf; ++f) {
                    if (f) l += delim.empty() ? "," : delim;
                    std::string t = i == 0 && g() % 2 ? std::string(1, "abc"[f]) : texts[g() % (sizeof texts / sizeof *texts)];
                    if (g() % 6 == 0) for (size_t n = g() % 5; n; --n) t += alpha[g() % alpha.size()];
                    if (g() % 30 == 0) t.append(g() % 300, 'x');
                    if (!q.empty() && g() % 3 == 0) {
                        char c = q[g() % q.size()];
                        if (g() % 3 == 0) t.insert(g() % (t.size() + 1), g() % 2 ? "\r\n" : "\n");
                        t = c + t + (g() % 8 ? std::string(1, c) : "");
                    }
                    if (!q.empty() && g() % 6 == 0) t.insert(g() % (t.size() + 1), std::string(1, q[g() % q.size()]) + (g() % 2 ? "\n" : ""));
                    l += t;
                }
                in += l;
                if (i + 1 < lines || g() % 3) in += crlf ? "\r\n" : "\n";
            }
            compare(in, delim, g() % 5 == 0, g(), 1 + g() % 12);
        }
    }
    printf("DONE {\"evaluations\": %llu, \"exhaustive\": %llu, \"length\": %zu, \"steps\": %llu, \"errors\": %llu}\n", evals, ex, len ? len - 1 : 0, steps, errors);
}
