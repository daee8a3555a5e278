// Records concurrent histories of ThreadPool (spec/Pool.tla); conc.h has the script format. A scenario: nK (threads of the
// pool; n0: as many as the machine has), flags (g: all results are fetched before the pool is closed; h: half of them; q:
// quiescence is noted before closing; -: none), then programs, the first one run by thread 0, the others by threads of their own. A program is a comma
// separated list of   v|x|w|a|r + N  submit task N (value, exception, void, with arguments, by reference wrapper)
//   sN.M task N submits task M | dN.M task N waits for task M to end | iN.M task N fetches the result of task M
//   fN fetch the result of task N | lN let task N go on | kN task N waits until it is let go on | y a pause | Q wait until nobody else can go on, and note it
#include "conc.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include "parallel/ThreadPool.h"
using namespace pgbn::parallel;
struct Flag { std::mutex m; std::condition_variable cv; bool set = false;
    void wait() { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return set; }); } void raise() { std::lock_guard<std::mutex> g(m); set = true; cv.notify_all(); } };
struct Slot { Flag ended, go, have; std::future<long> f; std::future<void> fv; bool isVoid = false, fetched = false; };
static const int MAXT = 71;
struct Boom { long n; };
static void scenario(const vector<string> & c) {
    int n = atoi(c[0].c_str() + 1); const string & fl = c[1]; vector<string> progs(c.begin() + 2, c.end());
    vector<std::unique_ptr<Slot>> s; for (int k = 0; k < MAXT; ++k) s.emplace_back(new Slot);
    ThreadPool * pool = nullptr;
    auto num = [](const string & o) { return (int)atoi(o.c_str() + 1); };
    auto second = [](const string & o) { size_t p = o.find('.'); return p == string::npos ? 0 : atoi(o.c_str() + p + 1); };
    std::function<void(const string &)> submit; std::function<void(int)> fetch;
    auto before = [&](const string & o) { // what the task does before it ends
        int t = num(o), m = second(o);
        ev("\"op\":\"start\",\"th\":%d,\"t\":%d", sched::self(), t);
        if (o[0] == 's') submit("v" + std::to_string(m));
        if (o[0] == 'd') s[m]->ended.wait();
        if (o[0] == 'i') fetch(m);
        if (o[0] == 'k') s[t]->go.wait();
        sched::point();
        ev("\"op\":\"fin\",\"th\":%d,\"t\":%d", sched::self(), t);
        s[t]->ended.raise();
    };
    submit = [&](const string & o) {
        int t = num(o); Slot & x = *s[t]; x.isVoid = o[0] == 'w';
        ev("\"op\":\"submit\",\"th\":%d,\"t\":%d,\"k\":\"%s\"", sched::self(), t, o[0] == 'x' ? "exc" : "val");
        if (o[0] == 'w') x.fv = pool->addTask([&, o] { before(o); });
        else if (o[0] == 'x') x.f = pool->addTask([&, o, t]() -> long { before(o); throw Boom{t}; });
        else if (o[0] == 'a') { string arg = "task " + std::to_string(t); x.f = pool->addTask([&, o](int a, const string & b) { before(o); return (long)(b == "task " + std::to_string(a) ? a : -1); }, t, arg); arg = "changed"; }
        else if (o[0] == 'r') { struct F { std::function<void(const string &)> b; string o; long t; long go() { b(o); return t; } }; x.f = pool->addTask(&F::go, F{before, o, t}); }
        else x.f = pool->addTask([&, o, t] { before(o); return (long)t; });
        ev("\"op\":\"submitted\",\"th\":%d,\"t\":%d", sched::self(), t); x.have.raise();
    };
    fetch = [&](int t) {
        Slot & x = *s[t]; x.have.wait(); if (x.fetched) return; x.fetched = true; const char * k = "val"; long v = t;
        try { if (x.isVoid) x.fv.get(); else v = x.f.get(); } catch (Boom & b) { k = "exc"; v = b.n; } catch (std::future_error &) { k = "broken"; } catch (...) { k = "other"; }
        ev("\"op\":\"got\",\"th\":%d,\"t\":%d,\"k\":\"%s\",\"v\":%ld", sched::self(), t, k, v);
    };
    auto body = [&](const string & prog) { for (auto & o : commas(prog)) { if (o == "y") sched::point(); else if (o == "Q") { sched::quiesce(); ev("\"op\":\"quiet\""); } else if (o[0] == 'f') fetch(num(o)); else if (o[0] == 'l') s[num(o)]->go.raise(); else if (o != "-") submit(o); } };
    vector<int> all; for (auto & p : progs) for (auto & o : commas(p)) if (strchr("vxwarsdik", o[0])) { all.push_back(num(o)); if (o[0] == 's') all.push_back(second(o)); }
    ev("\"op\":\"reset\"");
    if (n > 0) pool = new ThreadPool((size_t)n); else pool = new ThreadPool();
    ev("\"op\":\"open\",\"n\":%d", n > 0 ? n : (int)std::thread::hardware_concurrency());
    vector<std::thread> th; for (size_t k = 1; k < progs.size(); ++k) th.emplace_back([&, k] { body(progs[k]); });
    body(progs[0]);
    for (auto & t : th) t.join();
    if (fl == "q") { sched::quiesce(); ev("\"op\":\"quiet\""); }
    if (fl == "g" || fl == "h") for (size_t k = 0; k < all.size(); k += fl == "g" ? 1 : 2) fetch(all[k]);
    ev("\"op\":\"close\""); delete pool; ev("\"op\":\"closed\"");
    for (int t : all) { if (s[t]->have.set) fetch(t); }
}
int main(int argc, char ** argv) { return concMain(argc, argv, scenario); }
