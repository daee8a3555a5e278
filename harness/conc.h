// Driver of the recorders of concurrent histories. A scenario is a list of programs; it runs under the controlled
// scheduler (ctl.h) and notes events. Script lines:
//   reset
//   run SEED COUNT STRATEGY DEPTH MEM SPURIOUS PROGRAM ..   (COUNT schedules: STRATEGY r random, p priorities)
//   dfs BOUND MAX PROGRAM ..                                (all schedules with at most BOUND preemptions, at most MAX)
// Histories of one line that are equal are written once.
#pragma once
#include "common.h"
#include "ctl.h"
#include <set>
#include <cstdarg>
static string g_hist;
static void ev(const char * f, ...) { sched::hold(1); char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); g_hist += '{'; g_hist.append(b, (size_t)std::min(n, (int)sizeof b - 1)); g_hist += "}\n"; sched::hold(-1); }
static string ints(const vector<int> & v) { string s; for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return "[" + s + "]"; }
static vector<string> commas(const string & s) { vector<string> r; string x; std::istringstream is(s); while (std::getline(is, x, ',')) r.push_back(x); return r; }
inline int concMain(int argc, char ** argv, const std::function<void(const vector<string> &)> & scenario, const std::function<void()> & init = [] {}) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared(); long runs = 0, distinct = 0; (void)runs; (void)distinct;
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a"); static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big); size_t cur = 0; std::set<string> seen;
        auto flush = [&](bool always) {
            if (!always && !seen.insert(g_hist).second) return;
            for (size_t p = 0; p < g_hist.size();) { size_t q = g_hist.find('\n', p); fprintf(out, "{\"ln\":%zu,%s\n", cur + 1, g_hist.substr(p + 1, q - p - 1).c_str()); p = q + 1; }
        };
        std::function<void(const string &)> stuck = [&](const string & how) { ev("\"op\":\"stuck\",\"how\":%s", jstr(how).c_str()); flush(true); fflush(out); _exit(40); };
        init();
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            vector<string> c; { std::stringstream ss(lines[ln]); string t; while (ss >> t) c.push_back(t); }
            fflush(out); sh->line = (int64_t)ln; cur = ln; seen.clear();
            sched::Config k; long n = 0; vector<string> p;
            if (c[0] == "reset") continue;
            else if (c[0] == "run") { k.seed = (uint64_t)atoll(c[1].c_str()); n = atol(c[2].c_str()); k.strategy = c[3][0]; k.depth = atoi(c[4].c_str()); k.mem = atol(c[5].c_str()); k.spurious = c[6] == "1"; p.assign(c.begin() + 7, c.end()); }
            else if (c[0] == "dfs") { k.strategy = 'd'; k.depth = atoi(c[1].c_str()); n = atol(c[2].c_str()); p.assign(c.begin() + 3, c.end()); }
            else { fprintf(stderr, "bad: %s\n", lines[ln].c_str()); _exit(97); }
            for (;;) {
                sh->progress = sh->progress + 1; sh->done = 0; g_hist.clear();
                sched::run(k, [&] { scenario(p); }, stuck);
                flush(false); 
                if (--n <= 0) break;
                if (k.strategy == 'd') { if (!sched::next(k.prefix)) break; } else ++k.seed;
            }
        }
        sh->line = (int64_t)lines.size(); fflush(out); fclose(out);
    };
    int deaths = 0, hangs = 0;
    supervise(sh, 0, 20, segment, [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") exit(3);
        FILE * f = fopen(argv[2], "a"); if (how != "exit 40") fprintf(f, "{\"ln\":%lld,\"op\":\"crash\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(f);
        ++deaths; hangs += how == "hang"; if (deaths > 20 || hangs > 2) return -1;
        for (++ln; ln < (int64_t)lines.size(); ++ln) if (lines[(size_t)ln].compare(0, 5, "reset") == 0) return ln;
        return -1;
    });
    return 0;
}
