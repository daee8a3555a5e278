// Records histories of evaluations (spec/Expr.tla). Script lines:
//   reset | def NAMEHEX KIND VALUE N | eval STATUS MODE TEXTHEX   (MODE: e = eval, pN = peval with N threads; a fifth field
// SEED,STRATEGY,DEPTH,MEM,SPURIOUS,COUNT runs it COUNT times under the controlled scheduler)
#include "common.h"
#include <mutex>
#include <set>
#include <algorithm>
#ifdef CTL
#include "ctl.h"
#endif
#include "expr.h"
#include "Status.h"
#include "infixExpr/SymbolTable.h"
using namespace pgbn; using namespace pgbn::infixExpr;
static std::mutex g_m;
static vector<unsigned> g_err;
static vector<string> g_ticks;
static void onErr(unsigned c) { if (c) { std::lock_guard<std::mutex> g(g_m); g_err.push_back(c); } }
static string num(const BigInteger & x) { vector<unsigned char> b(1 << 17); size_t n = x.isZero() ? 0 : x.copyMagDataTo(b.data(), b.size()); return numeral(x.isNegative(), b.data(), n); }
static Value mk(const string & h) { Value v; bool ok = false; v.fromString(h, 16, &ok); return v; }
static string numV(const Value & v) { return num(BigInteger(std::make_unique<BigIntegerImpl>(v))); }
static Func func(const string & f, int n) {
    Func r; r.argCount = n;
    if (f == "sum") r.nativeCall = [](Func::ArgType a) { Value s(0); for (auto & x : a) s.addAssign(x); return s; };
    else if (f == "neg") r.nativeCall = [](Func::ArgType a) { Value s = a[0]; s.negate(); return s; };
    else if (f == "max2") r.nativeCall = [](Func::ArgType a) { return a[0].cmp(a[1]) >= 0 ? a[0] : a[1]; };
    else if (f == "fma") r.nativeCall = [](Func::ArgType a) { a[0].mulAssign(a[1]); a[0].addAssign(a[2]); return a[0]; };
    else if (f == "cnt") r.nativeCall = [](Func::ArgType a) { return Value((std::int64_t)a.size()); };
    else if (f == "nine") r.nativeCall = [](Func::ArgType) { return Value(9); };
    else if (f == "boom") r.nativeCall = [](Func::ArgType a) -> Value { if (a.size() % 2) throw (long)7; return Value(a.size() ? 1 : 0); };
    else if (f == "bump") r.nativeCall = [](Func::ArgType a) { a[0].inc(); return a[0]; };
    else if (f == "tick") r.nativeCall = [](Func::ArgType a) { auto s = numV(a[0]); std::lock_guard<std::mutex> g(g_m); g_ticks.push_back(s); return a[0]; };
    else { fprintf(stderr, "bad function %s\n", f.c_str()); _exit(97); }
    return r;
}
// the texts of the families (FamilyText in Expr.tla); the symbols f g h m t K are as gen_expr.ENUM defines them
static string fam(int f, long n) {
    auto list = [&](std::function<string(long)> item, long m) { string r; for (long k = 1; k <= m; ++k) r += (k > 1 ? "," : "") + item(k); return r; };
    auto rep = [](const string & x, long m) { string r; for (long k = 0; k < m; ++k) r += x; return r; };
    auto N = [](long k) { return std::to_string(k); };
    std::function<string(long)> tree = [&](long k) { if (!k) return string("1"); auto x = tree(k - 1); return "(" + x + "+" + x + ")"; };
    switch (f) {
    case 1: return "g(" + list(N, n) + ")";
    case 2: return "g(" + list([&](long k) { return N(k) + "*1"; }, n) + ")";
    case 3: return "g(" + list([&](long k) { return N(k) + "%2?1:2"; }, n) + ")";
    case 4: return "g(" + list([&](long k) { return "t(" + N(k) + ")"; }, n) + ")";
    case 5: return tree(n);
    case 6: return "1" + rep("+1", n);
    case 7: return rep("(", n) + "1" + rep(")", n);
    case 8: return rep("-", n) + "1";
    case 9: return "1" + rep("!", n);
    case 10: return "g(" + list(N, n);
    case 11: return "g(" + list([](long) { return "1/0"; }, n) + ")";
    case 12: return "1" + rep("0", n);
    case 13: return "1" + rep(" ", n) + "+" + rep("\n", n) + "1";
    case 14: return rep("0?1:", n) + "9";
    case 15: return "f(" + list(N, n) + ")";
    case 16: return rep("f(", n) + "1" + rep(")", n);
    case 17: return rep("g(1,", n) + "2" + rep(")", n);
    case 18: return "1" + rep("*1", n) + "+1" + rep("*1", n);
    case 19: return rep("1?", n) + "9" + rep(":1", n);
    }
    fprintf(stderr, "bad family\n"); _exit(97);
}
static string infoCode(const Status & s) { const auto & i = s.getInfo(); return i.size() > 1 && i[0] == 'c' ? i.substr(1) : "-1"; }
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    auto segment = [&](int64_t from) {
        struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
        FILE * out = fopen(argv[2], "a"); static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big);
        for (unsigned code = 0; code <= 16; ++code) Status::registe(code, "c" + std::to_string(code), onErr, code);
        Status own[3];
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            vector<string> c; { std::stringstream ss(lines[ln]); string t; while (ss >> t) c.push_back(t); }
            fflush(out); sh->line = (int64_t)ln; sh->progress = sh->progress + 1;
            g_err.clear(); g_ticks.clear();
            if (c[0] == "reset") {
                static_cast<ObjectManager<SymbolTable::Symbol> &>(*SymbolTable::getInstance()) = ObjectManager<SymbolTable::Symbol>();
                *Status::getInstance() = Status(); for (auto & s : own) s = Status();
                fprintf(out, "{\"ln\":%zu,\"op\":\"reset\"}\n", ln + 1);
            } else if (c[0] == "def") {
                string name = unhex(c[1]), s; int n = atoi(c[4].c_str());
                if (c[2] == "fun") SymbolTable::getInstance()->registe(name, func(c[3], n));
                else if (c[2] == "con") SymbolTable::getInstance()->registe(name, mk(c[3]));
                else SymbolTable::getInstance()->registe(name, SymbolTable::Symbol());
                for (unsigned char ch : name) s += (s.empty() ? "" : ",") + std::to_string(ch);
                fprintf(out, "{\"ln\":%zu,\"op\":\"def\",\"name\":[%s],\"k\":\"%s\",\"v\":\"%s\",\"n\":%d}\n", ln + 1, s.c_str(), c[2].c_str(), c[3].c_str(), n);
            } else if (c[0] == "eval" || c[0] == "fam") {   // fam STATUS MODE FAMILY,N
                int ff = 0; long fn = 0; if (c[0] == "fam") sscanf(c[3].c_str(), "%d,%ld", &ff, &fn);
                string text = ff ? fam(ff, fn) : c.size() > 3 ? unhex(c[3]) : ""; int s = atoi(c[1].c_str()), fm = s / 3; s %= 3;
                // the text as a string view of exactly its bytes
                char * exact = (char *)malloc(text.size() ? text.size() : 1); memcpy(exact, text.data(), text.size());
                StringArg view(exact, text.size());
                Status * stp = s ? &own[s] : fm ? Status::getInstance() : nullptr;
                string last; long count = 1; (void)count;
                auto go = [&] (string & res) { try { BigInteger r = c[2] == "e" ? expr::eval(view, stp) : expr::peval(view, atoi(c[2].c_str() + 1), stp); res = num(r); } catch (long) { res = "exc"; } };
#ifdef CTL
                sched::Config k; if (c.size() > 4) { char st; int sp; unsigned long long seed; sscanf(c[4].c_str(), "%llu,%c,%d,%ld,%d,%ld", &seed, &st, &k.depth, &k.mem, &sp, &count); k.seed = seed; k.strategy = st; k.spurious = sp; }
#endif
                std::set<string> seen;
                for (long n = 0; n < count; ++n) { // equal events are written once
                    g_err.clear(); g_ticks.clear(); string res; sh->progress = sh->progress + 1;
#ifdef CTL
                    std::function<void(const string &)> stuck = [&](const string & how) { fprintf(out, "{\"ln\":%zu,\"op\":\"stuck\",\"how\":%s}\n", ln + 1, jstr(how).c_str()); fflush(out); _exit(40); };
                    if (c.size() > 4) { sched::run(k, [&] { go(res); }, stuck); ++k.seed; } else
#endif
                    go(res);
                    std::sort(g_ticks.begin(), g_ticks.end());
                    string ts, es, tk; if (!ff || text.size() <= 200) for (unsigned char ch : text) ts += (ts.empty() ? "" : ",") + std::to_string(ch);
                    for (unsigned x : g_err) es += (es.empty() ? "" : ",") + std::to_string(x);
                    for (auto & x : g_ticks) tk += (tk.empty() ? "" : ",") + jstr(x);
                    string st = infoCode(*Status::getInstance()) + "," + infoCode(own[1]) + "," + infoCode(own[2]);
                    string line = (ff ? "\"op\":\"fam\",\"f\":" + std::to_string(ff) + ",\"n\":" + std::to_string(fn) : string("\"op\":\"eval\"")) + ",\"par\":" + string(c[2] == "e" || c[2] == "p0" ? "false" : "true") + ",\"s\":" + std::to_string(s) + ",\"text\":[" + ts + "],\"o\":\"" + res + "\",\"err\":[" + es + "],\"ticks\":[" + tk + "],\"st\":[" + st + "]";
                    if (seen.insert(line).second) fprintf(out, "{\"ln\":%zu,%s}\n", ln + 1, line.c_str());
                }
                free(exact);
            } else { fprintf(stderr, "bad: %s\n", lines[ln].c_str()); _exit(97); }
        }
        sh->line = (int64_t)lines.size(); fflush(out); fclose(out);
    };
    int deaths = 0, hangs = 0;
    auto onDeath = [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") exit(3);
        FILE * out = fopen(argv[2], "a"); fprintf(out, "{\"ln\":%lld,\"op\":\"crash\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(out);
        ++deaths; hangs += how == "hang"; if (deaths > 40 || hangs > 2) return -1;
        for (++ln; ln < (int64_t)lines.size(); ++ln) if (lines[ln].compare(0, 5, "reset") == 0) return ln;
        return -1;
    };
    supervise(sh, 0, 20, segment, onDeath);
    return 0;
}
