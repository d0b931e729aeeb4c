// Search for an input on which the real splitter differs from the specification (or breaks memory safety).
// -DOPTS=... the splitter's options; Q E TL TR ML MODE describe them to the oracle
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <random>
#include "oracle.hpp"
#include <ss/splitter.hpp>
using S = ss::splitter<OPTS>;
static const Dialect D{Q, E, TL, TR, ML};
static std::string cur, curd, prev;
static bool havelast = false;

extern "C" void __asan_on_error() {
    fprintf(stdout, "\nFOUND {\"what\": \"memory error\", \"line\": %s, \"delimiter\": %s, \"previous\": %s}\n", show(cur).c_str(),
            show(curd).c_str(), show(prev).c_str());
    fflush(stdout);
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }
#include <csignal>
static void onabrt(int sig) {
    __asan_on_error();
    (void)sig;
    _exit(3);
}

[[noreturn]] static void found(const char* what, const std::string& line, const std::string& delim, const std::string& want,
                  const std::string& got) {
    printf("\nFOUND {\"what\": %s, \"line\": %s, \"delimiter\": %s, \"previous\": %s, \"expected\": %s, \"got\": %s}\n",
           show(what).c_str(), show(line).c_str(), show(delim).c_str(), show(prev).c_str(), show(want).c_str(), show(got).c_str());
    fflush(stdout);
    _exit(3);
}

static std::string join(const std::vector<std::string>& v) {
    std::string o;
    for (auto& x : v) o += "[" + x + "]";
    return o;
}

static unsigned long long evals = 0, bad = 0, shaped = 0;

static void one(S& s, const std::string& line, const std::string& delim) {
    cur = line;
    curd = delim;
    char* b = new char[line.size() + 1];
    memcpy(b, line.c_str(), line.size() + 1);
    Split w = oracle_split(D, line, delim);
    ++evals;
    if (!w.ok()) ++bad;
    if (w.fields.size() > 1) ++shaped;
    bool thrown = false;
    std::string msg;
    std::vector<std::string> got;
    const ss::split_data* sd = nullptr;
    try {
        sd = &s.split(b, delim);
    } catch (ss::exception& e) {
        thrown = true;
        msg = e.what();
    }
    bool v = s.valid() && !thrown;
    if (v != w.ok()) found(w.ok() ? "valid line reported invalid" : "malformed line accepted", line, delim, message(w), v ? "valid" : "invalid");
    if (!w.ok()) {
#if MODE == 1
        msg = s.error_msg();
#endif
        if (MODE != 0 && msg != message(w)) found("error message", line, delim, message(w), msg);
    }
    if (!thrown && s.unterminated_quote() != w.open) found("unterminated quote", line, delim, w.open ? "open" : "closed", s.unterminated_quote() ? "open" : "closed");
    if (v && !w.open && !w.qesc) {
        const char* last = b;
        for (auto& [x, y] : *sd) {
            if (x < last || y < x || y > b + line.size()) found("field outside of the line", line, delim, "", "");
            last = y;
            got.emplace_back(x, y);
        }
        if (got != w.fields) found("fields", line, delim, join(w.fields), join(got));
        if (s.get_split_data().size() != got.size()) found("field list", line, delim, "", "");
    }
    if (w.err == "delimiter" && !thrown && !s.get_split_data().empty()) found("fields", line, delim, "", "not empty");
    if (!thrown && s.unterminated_quote()) { /* next split starts afresh */ }
    delete[] b;
    prev = line;
}

int main(int argc, char** argv) {
    double budget = argc > 1 ? atof(argv[1]) : 20;
    unsigned seed = argc > 2 ? atoi(argv[2]) : 1;
    signal(SIGABRT, onabrt);
    signal(SIGALRM, [](int) { 
        printf("\nFOUND {\"what\": \"does not terminate\", \"line\": %s, \"delimiter\": %s}\n", show(cur).c_str(), show(curd).c_str());
        fflush(stdout); _exit(3); });
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    if (argc > 3) {
        S s;
        alarm(5);
        if (argc > 5) one(s, argv[5], argv[4]);
        one(s, argv[3], argv[4]);
        printf("OK\n");
        return 0;
    }
    std::string alpha = "a,";
    for (const std::string& x : {D.quote, D.escape, D.tl, D.tr})
        for (char c : x.substr(0, 2))
            if (alpha.find(c) == std::string::npos) alpha += c;
    S s;
    // exhaustive short lines
    size_t len = 0;
    for (; len <= 9; ++len) {
        double total = 1;
        for (size_t i = 0; i < len; ++i) total *= alpha.size();
        if (total > 3e6) break;
        std::vector<size_t> ix(len, 0);
        std::string line(len, alpha[0]);
        bool stop = false;
        while (true) {
            if ((evals & 255) == 0) {
                alarm(5);
                if (left() < budget * 0.5) { stop = true; break; }
            }
            one(s, line, ",");
            if (len <= 6) { one(s, line, ",a"); one(s, line, ",,"); }
            if (len <= 3) one(s, line, "");
            size_t k = 0;
            for (; k < len; ++k) {
                if (++ix[k] < alpha.size()) { line[k] = alpha[ix[k]]; break; }
                ix[k] = 0;
                line[k] = alpha[0];
            }
            if (k == len) break;
        }
        if (stop) break;
    }
    unsigned long long ex = evals;
    std::mt19937 g(seed);
    std::string wide = alpha + alpha + alpha + D.quote + D.escape + D.tl + D.tr + ";:|\n\r\x01\x7f\x80\xff" "bcde0123";
    const char* delims[] = {",", ",", ";", "a", ",,", ";:", ",;,", "::::", "a,a", "|;|;|;|;", "\"", "\\", " ", ", ", " ,"};
    while (left() > 0) {
        alarm(10);
        for (int r = 0; r < 200; ++r) {
            std::string delim = delims[g() % (sizeof delims / sizeof *delims)];
            if (g() % 4 == 0) {
                // any delimiter without NUL, of any length
                delim.clear();
                size_t k = 1 + (g() % 3 ? g() % 6 : g() % 70);
                bool same = g() % 4 == 0;
                while (delim.size() < k) delim += same && !delim.empty() ? delim[0] : g() % 3 ? ";:|<>-.x"[g() % 8] : wide[g() % wide.size()];
            }
            std::string line;
            size_t n = g() % (r % 20 == 0 ? 600 : r % 3 == 0 ? 60 : 16);
            int style = g() % 4;
            while (line.size() < n) {
                unsigned x = g() % 10;
                if (x < 2) line += delim;
                else if (x < 3 && style == 2) {
                    // almost a delimiter
                    std::string d = delim;
                    size_t k = g() % d.size();
                    if (g() % 3 == 0) d.resize(k);
                    else d[k] = g() % 2 ? 'a' : wide[g() % wide.size()];
                    line += d;
                }
                else if (x < 3 && style) line.append(g() % 12, alpha[g() % alpha.size()]);
                else if (style == 1) line += alpha[g() % alpha.size()];
                else line += wide[g() % wide.size()];
            }
            if (style == 3 && !D.quote.empty()) {
                // mostly well formed quoting
                std::string l2;
                int nf = 1 + g() % 6;
                for (int f = 0; f < nf; ++f) {
                    if (f) l2 += delim;
                    if (g() % 2 && !D.tl.empty()) l2.append(g() % 3, D.tl[g() % D.tl.size()]);
                    l2 += D.quote;
                    int k = g() % 12;
                    while (k--) {
                        char c = wide[g() % wide.size()];
                        if (D.quote.find(c) != std::string::npos) { l2 += c; l2 += c; }
                        else if (D.escape.find(c) != std::string::npos) { l2 += c; l2 += alpha[g() % alpha.size()]; }
                        else l2 += c;
                    }
                    if (g() % 30) l2 += D.quote;
                    if (g() % 2 && !D.tr.empty()) l2.append(g() % 3, D.tr[g() % D.tr.size()]);
                }
                line = l2;
            }
            one(s, line, delim);
        }
    }
    printf("DONE {\"evaluations\": %llu, \"exhaustive\": %llu, \"length\": %zu, \"malformed\": %llu, \"several_fields\": %llu}\n", evals, ex, len ? len - 1 : 0, bad, shaped);
}
