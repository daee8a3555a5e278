// Records concurrent histories of SimpleConcurrenceQueue (spec/Queue.tla); conc.h has the script format. A program:
// comma separated  pN push a copy | mN push by move | fN push with a condition that fails | o pop | t tryPop |
// e empty | s notifyAllPop | k copy construct.  Thread 0 waits for quiescence and shuts down.
#include "conc.h"
#include <thread>
#include "parallel/SimpleConcurrenceQueue.h"
using namespace pgbn::parallel;
struct E { // an element whose life shows
    long v = 0; E() = default; E(long x) : v(x) {} E(const E & o) : v(o.v) {} E(E && o) : v(o.v) { o.v = -2; }
    E & operator=(const E & o) { v = o.v; return *this; } E & operator=(E && o) { if (this != &o) { v = o.v; o.v = -2; } return *this; } ~E() { v = -3; }
};
static void scenario(const vector<string> & progs) {
    typedef SimpleConcurrenceQueue<E> Q;
    std::unique_ptr<Q> q(new Q); int ths = (int)progs.size();
    ev("\"op\":\"reset\",\"th\":%d", ths);
    auto call = [&](const char * f, long v, bool c) { ev("\"op\":\"call\",\"th\":%d,\"f\":\"%s\",\"v\":%ld,\"c\":%s", sched::self(), f, v, c ? "true" : "false"); };
    auto ret = [&](bool ok, const string & v) { ev("\"op\":\"ret\",\"th\":%d,\"b\":%s,\"r\":[%s]", sched::self(), ok ? "true" : "false", v.c_str()); };
    auto body = [&](const string & prog) {
        for (auto & o : commas(prog)) {
            long v = o.size() > 1 ? atol(o.c_str() + 1) : 0;
            if (o[0] == 'p' || o[0] == 'm' || o[0] == 'f') {
                call("push", v, o[0] != 'f'); int errs = 0, conds = 0; E e(v); bool c = o[0] != 'f';
                auto cond = [&] { ++conds; sched::point(); return c; }; auto err = [&] { ++errs; };
                if (o[0] == 'p' || (o[0] == 'f' && v % 2)) q->push((const E &)e, cond, err); else q->push(std::move(e), cond, err);
                long left = o[0] == 'p' || (o[0] == 'f' && v % 2) ? e.v : v;         // copied
                ret(errs == 0 && conds >= 1 && left == v, errs > 1 ? "0" : "");
            } else if (o[0] == 'o') { call("pop", 0, true); E e(-1); bool b = q->pop(e); ret(b, b ? std::to_string(e.v) : e.v == -1 ? "" : "0"); }
            else if (o[0] == 't') { call("try", 0, true); E e(-1); bool b = q->tryPop(e); ret(b, b ? std::to_string(e.v) : e.v == -1 ? "" : "0"); }
            else if (o[0] == 'e') { call("empty", 0, true); bool b = q->empty(); ret(b, ""); }
            else if (o[0] == 's') { call("shut", 0, true); q->notifyAllPop(); ret(true, ""); }
            else if (o[0] == 'k') { call("copy", 0, true); Q c(*q); string s; E e; for (int k = 0; k < 100 && c.tryPop(e); ++k) s += (s.empty() ? "" : ",") + std::to_string(e.v); ret(true, s); }
            else { fprintf(stderr, "bad op %s\n", o.c_str()); _exit(97); }
        }
    };
    vector<std::thread> th; for (auto & p : progs) th.emplace_back([&, p] { body(p); });
    auto quiet = [&] { ev("\"op\":\"quiet\",\"blocked\":%s", ints(sched::quiesce()).c_str()); };
    quiet();
    body("s"); quiet();
    for (auto & t : th) t.join();
    body("k"); q.reset();
}
int main(int argc, char ** argv) { return concMain(argc, argv, scenario); }
