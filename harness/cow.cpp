// Records what threads see that work on copies of the same numbers at the same time (spec/BigTrace.tla). A script segment:
//   reset LAYER
//   m CMD                   before the threads start (CMD: a line of big.cpp)
//   tK CMD                  thread K (0..3) does CMD; it touches only its registers 2K and 2K+1
//   run SEED COUNT STRATEGY DEPTH MEM SPURIOUS | dfs BOUND MAX | real COUNT      (real: under the system's scheduler)
// Threads touch disjoint objects, so the events of one run are written thread by thread; equal histories once.
#define PER_THREAD thread_local
#define NO_MAIN
#include "big.cpp"
#ifdef CTL
#include "ctl.h"
#else
namespace sched { struct Config { uint64_t seed; char strategy; int depth; long mem; bool spurious; vector<int> prefix; }; inline void hold(int) {} inline bool next(vector<int> &) { return false; } inline void run(const Config &, const std::function<void()> &, const std::function<void(const string &)> &) { _exit(97); } }
#endif
#include <atomic>
#include <functional>
#include <thread>
#include <set>
static string event(Machine & m, Cmd c, string * last, bool & unseen, const vector<int> & look, const string & ln) {
    g_err.clear(); Outs o;
    bool quiet = c.op.back() == '~'; if (quiet) c.op.pop_back();
    if (c.op != "obs" && !m.exec(c, o)) { fprintf(stderr, "no such operation: %s\n", c.op.c_str()); _exit(97); }
    vector<unsigned> err = g_err; string chg, can, es;
    if (!quiet) for (int k : look) {
        string d = m.dump(k);
        if (d == last[k] && !unseen) { bool isDst = false; for (int x : c.d) isDst |= x == k; if (!isDst) continue; }
        else chg += (chg.empty() ? "[" : ",[") + std::to_string(k) + "," + jstr(d) + "]";
        last[k] = d;
        if (d != "M" && !m.canonical(k)) can += (can.empty() ? "" : ",") + std::to_string(k);
    }
    unseen = quiet;
    for (unsigned e : err) es += (es.empty() ? "" : ",") + std::to_string(e);
    string is; for (auto & x : c.i) is += (is.empty() ? "" : ",") + jstr(x);
    return "{\"ln\":" + ln + ",\"q\":" + (quiet ? "true" : "false") + ",\"op\":" + jstr(c.op) + ",\"f\":" + jstr(c.form) + ",\"d\":" + list(c.d) + ",\"s\":" + list(c.s) + ",\"n\":" + std::to_string(c.n) + ",\"i\":[" + is + "],\"t\":" +
        (c.op == "ofbin" || c.op == "ofwords" ? jstr(hexOf((const unsigned char *)c.t.data(), c.t.size())) : jstr(c.t)) + ",\"o\":[" + o.s + "],\"chg\":[" + chg + "],\"can\":[" + can + "],\"err\":[" + es + "]}\n";
}
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a"); static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big);
        registerAll();
        string layer; vector<Cmd> pre, prog[4]; size_t cur = 0; std::set<string> seen; vector<int> all; for (int k = 0; k < NR; ++k) all.push_back(k);
        string part[5];
        auto scenario = [&](bool controlled) {
            string ln = std::to_string(cur + 1);
            for (auto & p : part) p.clear();
            string last[NR]; std::unique_ptr<Machine> m;
            if (controlled) sched::hold(1);
            if (layer == "B") m.reset(new MB); else if (layer == "I") m.reset(new MI); else m.reset(new MC);
            part[0] = "{\"ln\":" + ln + ",\"op\":\"reset\",\"f\":\"" + layer + "\",\"chg\":[";
            for (int k = 0; k < NR; ++k) { last[k] = m->dump(k); part[0] += (k ? ",[" : "[") + std::to_string(k) + "," + jstr(last[k]) + "]"; }
            part[0] += "]}\n";
            bool un = false; for (auto & c : pre) part[0] += event(*m, c, last, un, all, ln);
            if (un) part[0] += event(*m, parseCmd("obs - - - 0 - -"), last, un, all, ln);
            if (controlled) sched::hold(-1);
            vector<std::thread> ts; std::atomic<int> go{controlled ? 0 : 1}; // under the system's scheduler they start together
            for (int k = 0; k < 4; ++k) if (!prog[k].empty()) ts.emplace_back([&, k] {
                bool u = false; vector<int> mine{2 * k, 2 * k + 1};
                while (go.load() == 1) {}
                for (auto & c : prog[k]) part[1 + k] += event(*m, c, last, u, mine, ln);
                if (u) part[1 + k] += event(*m, parseCmd("obs - - - 0 - -"), last, u, mine, ln);
            });
            go = 0;
            for (auto & t : ts) t.join();
            if (controlled) sched::hold(1);
            un = true; string fin = event(*m, parseCmd("obs - - - 0 - -"), last, un, all, ln); m.reset();
            for (int k = 1; k < 5; ++k) part[0] += part[k];
            part[0] += fin;
            if (controlled) sched::hold(-1);
        };
        std::function<void(const string &)> stuck = [&](const string & how) { fprintf(out, "{\"ln\":%zu,\"op\":\"stuck\",\"how\":%s}\n", cur + 1, jstr(how).c_str()); fflush(out); _exit(40); };
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            const string & l = lines[ln]; std::stringstream ss(l); string w; ss >> w; cur = ln; fflush(out); sh->line = (int64_t)ln;
            if (w == "reset") { ss >> layer; pre.clear(); for (auto & p : prog) p.clear(); continue; }
            if (w == "m") { pre.push_back(parseCmd(l.substr(2))); continue; }
            if (w[0] == 't' && w.size() == 2) { prog[w[1] - '0'].push_back(parseCmd(l.substr(3))); continue; }
            sched::Config k; long n = 0; bool controlled = true;
            if (w == "run") { int sp; string st; ss >> k.seed >> n >> st >> k.depth >> k.mem >> sp; k.strategy = st[0]; k.spurious = sp; }
            else if (w == "dfs") { ss >> k.depth >> n; k.strategy = 'd'; }
            else if (w == "real") { ss >> n; controlled = false; }
            else { fprintf(stderr, "bad: %s\n", l.c_str()); _exit(97); }
            seen.clear();
            for (;;) {
                sh->progress = sh->progress + 1; sh->done = 0;
                if (controlled) sched::run(k, [&] { scenario(true); }, stuck); else scenario(false);
                if (seen.insert(part[0]).second) { fwrite(part[0].data(), 1, part[0].size(), out); fflush(out); }
                if (--n <= 0) break;
                if (k.strategy == 'd') { if (!sched::next(k.prefix)) break; } else ++k.seed;
            }
        }
        sh->line = (int64_t)lines.size(); fflush(out); fclose(out);
    };
    int deaths = 0, hangs = 0;
    supervise(sh, 0, 20, segment, [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") exit(3);
        FILE * f = fopen(argv[2], "a"); if (how != "exit 40") fprintf(f, "{\"ln\":%lld,\"op\":\"crash\",\"what\":\"threads\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(f);
        ++deaths; hangs += how == "hang"; if (deaths > 20 || hangs > 2) return -1;
        for (++ln; ln < (int64_t)lines.size(); ++ln) if (lines[(size_t)ln].compare(0, 5, "reset") == 0) return ln;
        return -1;
    });
    return 0;
}
