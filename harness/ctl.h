// A scheduler under which the threads of a program run one at a time, in an order that a seed decides.  The program is
// compiled with -fsanitize=thread but linked with ctl.cpp instead of the sanitizer's runtime: every memory access,
// atomic operation, mutex, condition variable, future, once and thread operation is a point at which the running thread
// may be changed.  Executions are sequentially consistent interleavings; one in which nobody can run is reported.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Config {
    uint64_t seed = 1;
    char strategy = 'r';     // r: random choice at every synchronisation; p: priorities with `depth` random changes; d: follow `prefix`, then stay
    int depth = 3;           // p: changes of priority; d: preemptions allowed
    long mem = 0;            // r: mean number of memory accesses between switches (0: none); p: length in which the changes are placed
    bool spurious = false;   // condition variables may wake up for no reason
    std::vector<int> prefix; // d
};
// runs f as thread 0; onStuck is told when nobody can go on any more and must not return
void run(const Config & c, const std::function<void()> & f, const std::function<void(const std::string &)> & onStuck);
int self();                  // number of this thread
void point();                // any other thread may go first
void hold(int d);            // +1, -1: no change of thread in between
std::vector<int> quiesce();  // waits until no other thread can go on; returns those that are blocked
// d: the choices made and the numbers of options there were
extern std::vector<int> choices, options;
bool next(std::vector<int> & prefix); // the next schedule in depth-first order after the one just run
}
