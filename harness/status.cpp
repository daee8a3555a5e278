// Records histories of status codes (spec/Status.tla). API: p = C++ (objects 1..3), c = C (objects 4, 5); 100+t: the
// global status of thread t. Every segment runs in a fresh process. Script lines:
//   reset | reg API CODE TEXT KIND A X Y | info API CODE | find CODE | set API OBJ CODE | new API OBJ CODE | move p J K
//   ctx OBJ TEXT | getctx OBJ | invoke CODE | invokeobj OBJ | par T:C,C,.. T:.. | child CODE
#include "common.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include "Status.h"
#include "errInfos.h"
#include "pgbn.h"
using namespace pgbn;
static thread_local vector<long> t_log;
static thread_local int t_self = 0;
static Status * g_obj[4]; static pgbn_Status_t * g_cobj[6];
static bool g_used = false;
struct Worker { // one thread that runs what it is given
    std::thread th; std::mutex m; std::condition_variable cv; std::function<void()> f; bool has = false, done = false;
    Worker() { th = std::thread([this] { for (;;) { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return has; }); f(); has = false; done = true; cv.notify_all(); } }); th.detach(); }
    void start(std::function<void()> x) { std::lock_guard<std::mutex> g(m); f = x; has = true; done = false; cv.notify_all(); }
    void wait() { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return done; }); }
};
static Worker * g_w[3];
static void on(int t, std::function<void()> f) {
    if (t == 0) { f(); return; }
    if (!g_w[t]) g_w[t] = new Worker;
    g_w[t]->start([&] { t_self = t; f(); }); g_w[t]->wait();
}
static void assignObj(int o, Enum c) { // in the thread the object belongs to
    if (o >= 100) PGBN_GetGlobalStatus() = c; else if (o <= 3) *g_obj[o] = c; else pgbn_Status_SetErrno(g_cobj[o], c);
}
// texts obtained earlier, held on to until their code is registered again
static std::multimap<Enum, const char *> g_held;
static void drop(Enum code) { g_held.erase(code); }
static void rec(long a) { t_log.push_back(a); }
static void cbC(void * p) { t_log.push_back((long)(intptr_t)p); }
static void registe(const string & api, Enum code, const string & text, const string & kind, long a, long x, long y) {
    drop(code);
    if (api == "c") {
        if (kind == "none") pgbn_Status_Register(code, text.c_str());
        else pgbn_Status_RegisterWithCallback(code, text.c_str(), cbC, (void *)(intptr_t)a);
        return;
    }
    // the text is a part of a longer one, or fills its memory to the last byte
    struct Buf { char * p; size_t n; ~Buf() { memset(p, '#', n); free(p); } };
    Buf buf; { string l = text + (code % 2 ? string() : string(": retry later")); buf.n = l.size(); buf.p = (char *)malloc(l.size() ? l.size() : 1); memcpy(buf.p, l.data(), l.size()); }
    StringArg text2(buf.p, text.size());
    if (kind == "none") Status::registe(code, text2);
    else if (kind == "rec") { if (a % 2) Status::registe(code, text2, rec, a); else Status::registe(code, text2, [a] { t_log.push_back(a); }); }
    else if (kind == "chain") Status::registe(code, text2, [a, x, y] { t_log.push_back(a);
        if (x < 100) assignObj((int)x, (Enum)y);
        else if (x - 100 == t_self) PGBN_GetGlobalStatus() = (Enum)y;
        else { // in the thread whose status it is (never thread 0 from another one)
            vector<long> inner;
            on((int)x - 100, [&] { vector<long> keep; keep.swap(t_log); PGBN_GetGlobalStatus() = (Enum)y; inner.swap(t_log); t_log.swap(keep); });
            t_log.insert(t_log.end(), inner.begin(), inner.end());
        } });
    else if (kind == "rereg") { string pad(40, 'x'); Status::registe(code, text2, [a, x, code, pad] { t_log.push_back(a); drop(code); Status::registe(code, "again", rec, x); if (pad != string(40, 'x')) t_log.push_back(-1); }); }
    else Status::registe(code, text2, [a, x, y] { t_log.push_back(a); drop((Enum)y); Status::registe((Enum)y, "fresh", rec, x); for (int k = 0; k < 50; ++k) Status::registe((Enum)(100000 + k), "pad"); });
}
static string longs(const vector<long> & v) { string r; for (long x : v) r += (r.empty() ? "" : ",") + std::to_string(x); return "[" + r + "]"; }
static int g_errFd = -1;
static string errText() { // what was written to stderr since the last call
    fflush(stderr); off_t n = lseek(g_errFd, 0, SEEK_END); string s((size_t)n, 0); pread(g_errFd, &s[0], s.size(), 0); ftruncate(g_errFd, 0); lseek(g_errFd, 0, SEEK_SET); return s;
}
static string printed(const string & s) { // the codes whose library text was printed
    vector<long> v; size_t p = 0;
    while (p < s.size()) {
        size_t q = s.find('\n', p); if (q == string::npos) q = s.size(); string l = s.substr(p, q - p); p = q + 1; if (l.empty()) continue; long best = -1;
        for (SizeType k = 0; k < errInfoCount; ++k) if (l == "[Error][" + std::to_string(errInfos[k].code) + "]" + errInfos[k].info) best = errInfos[k].code;
        v.push_back(best);
    }
    return longs(v);
}
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    g_errFd = memfd_create("err", 0); int realErr = dup(2);
    string table; for (SizeType k = 0; k < errInfoCount; ++k) table += string(k ? "," : "") + "[" + std::to_string(errInfos[k].code) + "," + jstr(errInfos[k].info) + "]";
    size_t segEnd = 0;
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a"); static char big[1 << 16]; setvbuf(out, big, _IOFBF, sizeof big);
        dup2(g_errFd, 2); errText();
        auto in = [&](int t, std::function<void()> f) { if (t == t_self) f(); else on(t, f); };
        auto shown = [&] {
            if (!g_used) return string("[]");
            string r; vector<long> keep; keep.swap(t_log); vector<std::pair<int, const char *>> all; // all are obtained before any is looked at
            for (int o = 1; o <= 5; ++o) { const char * s = o <= 3 ? (g_obj[o] ? g_obj[o]->getInfo().c_str() : nullptr) : g_cobj[o] ? pgbn_Status_GetInfo(g_cobj[o]) : nullptr; if (s) all.emplace_back(o, s); }
            for (int t = 0; t < 3; ++t) { const char * s; in(t, [&] { s = t == 2 ? pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()) : Status::getInstance()->getInfo().c_str(); }); all.emplace_back(100 + t, s); }
            for (auto & x : all) r += (r.empty() ? "[" : ",[") + std::to_string(x.first) + "," + jstr(x.second) + "]";
            t_log.swap(keep); return "[" + r + "]";
        };
        for (size_t ln = (size_t)from; ln < lines.size() && (ln == (size_t)from || lines[ln].compare(0, 5, "reset") != 0); ++ln) {
            vector<string> c; { std::stringstream ss(lines[ln]); string t; while (ss >> t) c.push_back(t); }
            fflush(out); sh->line = (int64_t)ln; sh->progress = sh->progress + 1;
            t_log.clear(); errText();
            const string & op = c[0]; string body; vector<long> lg;
            auto threadOf = [&](int o) { return o >= 100 ? o - 100 : 0; };
            auto N = [&](size_t k) { return c.size() > k ? atol(c[k].c_str()) : 0L; };
            if (op == "reset") body = "\"table\":[" + table + "]";
            else if (op == "reg") { registe(c[1], (Enum)N(2), c[3], c[4], N(5), N(6), N(7)); body = "\"c\":" + c[2] + ",\"i\":" + jstr(c[3]) + ",\"cb\":[\"" + c[4] + "\"," + c[5] + "," + c[6] + "," + c[7] + "]"; }
            else if (op == "info") { const char * x = c[1] == "c" ? pgbn_Status_GetInfoByErrno((Enum)N(2)) : Status::getInfo((Enum)N(2)).c_str(); body = "\"c\":" + c[2] + ",\"o\":" + jstr(x); if (g_held.size() < 40) g_held.emplace((Enum)N(2), x); }
            else if (op == "find") { std::tuple<std::string, Callback> * tp = (std::tuple<std::string, Callback> *)1; bool b = N(1) % 2 ? Status::find((Enum)N(1), &tp) : Status::find((Enum)N(1)); if (N(1) % 2 && (tp != nullptr) != b) b = !b; body = "\"c\":" + c[1] + ",\"b\":" + (b ? "true" : "false"); }
            else if (op == "set") {
                int o = (int)N(2); Enum code = (Enum)N(3); g_used = true;
                in(threadOf(o), [&] { vector<long> keep; keep.swap(t_log);
                    if (o >= 100 && c[1] == "c") pgbn_Status_SetErrno(pgbn_Status_GetGlobalInstance(), code); else assignObj(o, code);
                    lg.swap(t_log); t_log.swap(keep); });
                body = "\"k\":" + c[2] + ",\"c\":" + c[3];
            } else if (op == "new") {
                int o = (int)N(2); long code = N(3);
                if (o <= 3) { delete g_obj[o]; g_obj[o] = nullptr; if (code < 0) g_obj[o] = new Status(); else { g_used = true; g_obj[o] = new Status((Enum)code); } }
                else { if (g_cobj[o]) pgbn_Status_Destroy(g_cobj[o]); g_used = true; g_cobj[o] = code == 0 ? pgbn_Status_Create() : pgbn_Status_CreateWithErrno((Enum)code); }
                lg = t_log; body = "\"k\":" + c[2] + ",\"c\":" + c[3];
            } else if (op == "move") {
                int j = (int)N(2), k = (int)N(3);
                if (j >= 100 || k >= 100) g_used = true;
                auto obj = [&](int o) -> Status * { return o == 100 ? Status::getInstance() : g_obj[o]; };
                if (k <= 3 && (!g_obj[k] || N(2) % 2)) { Status * n = new Status(std::move(*obj(j))); delete g_obj[k]; g_obj[k] = n; } else *obj(k) = std::move(*obj(j));
                body = "\"j\":" + c[2] + ",\"k\":" + c[3];
            } else if (op == "ctx" || op == "getctx") {
                int o = (int)N(1); string text; if (o >= 100) g_used = true;
                in(threadOf(o), [&] { Status & s = o >= 100 ? *Status::getInstance() : *g_obj[o];
                    if (op == "ctx") { s.setContext(std::any(string(c[2]))); text = c[2]; } else { try { text = s.context<string>(); } catch (std::bad_any_cast &) { text = "(none)"; } } });
                body = "\"k\":" + c[1] + ",\"o\":" + jstr(text);
            } else if (op == "invoke") { const Callback & f = Status::getCallback((Enum)N(1)); if (f) f(); lg = t_log; body = "\"c\":" + c[1]; }
            else if (op == "invokeobj") { const Callback & f = g_obj[N(1)]->getCallback(); if (f) f(); lg = t_log; body = "\"k\":" + c[1]; }
            else if (op == "par") {
                vector<int> ts; vector<vector<long>> seqs, logs; g_used = true;
                for (size_t k = 1; k < c.size(); ++k) { ts.push_back(atoi(c[k].c_str())); vector<long> s; std::stringstream ss(c[k].substr(c[k].find(':') + 1)); string x; while (std::getline(ss, x, ',')) s.push_back(atol(x.c_str())); seqs.push_back(s); }
                logs.resize(ts.size()); std::atomic<int> ready{0};
                auto body1 = [&](size_t k) { t_log.clear(); ++ready; while (ready < (int)ts.size()) {} for (long x : seqs[k]) PGBN_GetGlobalStatus() = (Enum)x; logs[k] = t_log; t_log.clear(); };
                for (size_t k = 0; k < ts.size(); ++k) if (ts[k]) { if (!g_w[ts[k]]) g_w[ts[k]] = new Worker; g_w[ts[k]]->start([&, k] { t_self = ts[k]; body1(k); }); }
                for (size_t k = 0; k < ts.size(); ++k) if (!ts[k]) body1(k);
                for (size_t k = 0; k < ts.size(); ++k) if (ts[k]) g_w[ts[k]]->wait();
                string a, b, d; for (size_t k = 0; k < ts.size(); ++k) { a += (k ? "," : "") + std::to_string(ts[k]); b += (k ? "," : "") + longs(seqs[k]); d += (k ? "," : "") + longs(logs[k]); }
                body = "\"ts\":[" + a + "],\"seqs\":[" + b + "],\"logs\":[" + d + "]";
            } else if (op == "child") { // in a process of its own: the library's own callback
                fflush(out); pid_t p = fork();
                if (p == 0) { PGBN_GetGlobalStatus() = (Enum)N(1); fflush(stderr); _exit(0); }
                int st = 0; waitpid(p, &st, 0); string s = printed(errText());
                body = "\"c\":" + c[1] + ",\"exit\":" + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) + ",\"n\":" + (s == "[]" ? "0" : s == "[" + c[1] + "]" ? "1" : "2");
            } else { fprintf(stderr, "bad: %s\n", lines[ln].c_str()); _exit(97); }
            string pr = printed(errText()), held; for (auto & x : g_held) held += (held.empty() ? "[" : ",[") + std::to_string(x.first) + "," + jstr(x.second) + "]";
            body += ",\"held\":[" + held + "]";
            fprintf(out, "{\"ln\":%zu,\"op\":\"%s\",%s,\"log\":%s,\"printed\":%s,\"shown\":%s}\n", ln + 1, op.c_str(), body.c_str(), longs(lg).c_str(), pr.c_str(), shown().c_str());
        }
        fflush(out); fclose(out); (void)realErr;
    };
    int deaths = 0, hangs = 0;
    size_t at = 0;
    while (at < lines.size()) {
        bool died = false;
        supervise(sh, (int64_t)at, 20, segment, [&](int64_t ln, const string & how) -> int64_t {
            if (how == "exit 97") exit(3);
            FILE * out = fopen(argv[2], "a"); fprintf(out, "{\"ln\":%lld,\"op\":\"crash\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(out);
            ++deaths; hangs += how == "hang"; died = true; return -1;
        });
        if (deaths > 40 || hangs > 2) break;
        for (++at; at < lines.size() && lines[at].compare(0, 5, "reset") != 0; ++at) {}
        (void)died;
    }
    return 0;
}
