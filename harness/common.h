// Shared by the trace recorders: commands, event writer, isolation of crashes and hangs.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

using std::string; using std::vector;

inline string hexOf(const unsigned char * p, size_t n) {
    static const char * H = "0123456789abcdef"; string r;
    for (size_t i = 0; i < n; ++i) { r += H[p[i] >> 4]; r += H[p[i] & 15]; }
    return r;
}
inline string unhex(const string & h) {
    string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
// canonical signed hexadecimal numeral of a magnitude given as little-endian bytes
inline string numeral(bool neg, const unsigned char * p, size_t n) {
    static const char * H = "0123456789abcdef"; string r;
    if (n == 0) return neg ? "-0" : "0";
    for (size_t i = n; i-- > 0;) { r += H[p[i] >> 4]; r += H[p[i] & 15]; }
    if (r[0] == '0') r.erase(0, 1);
    return (neg ? "-" : "") + r;
}
inline string hexU(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }
inline string hexI(int64_t v) { return v < 0 ? "-" + hexU(-(uint64_t)v) : hexU((uint64_t)v); }
inline uint64_t parseHexU(const string & s) { return strtoull(s.c_str(), nullptr, 16); }
inline int64_t parseHexI(const string & s) { return s[0] == '-' ? (int64_t)(-(uint64_t)strtoull(s.c_str() + 1, nullptr, 16)) : (int64_t)strtoull(s.c_str(), nullptr, 16); }
inline string jstr(const string & s) {
    string r = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\' || c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c;
    }
    return r + "\"";
}

struct Shared { volatile uint64_t progress; volatile int64_t line; volatile uint64_t done; };

// Runs `segment(from)` in a child process.  The child sets shared->line to the number of the command it is about to
// execute and returns normally at the end.  After a crash or a hang `onDeath(line, how)` is called in the parent and
// has to give the line to go on from (-1: stop).
inline void supervise(Shared * sh, int64_t from, int hangSeconds, const std::function<void(int64_t)> & segment,
                      const std::function<int64_t(int64_t, const string &)> & onDeath) {
    while (from >= 0) {
        fflush(nullptr);
        sh->done = 0; sh->line = from; sh->progress = 0;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); segment(from); fflush(nullptr); sh->done = 1; _exit(0); }
        int st = 0; string how; uint64_t last = ~0ULL; double idle = 0; 
        for (;;) {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) break;
            struct timespec ts = {0, 2000000}; nanosleep(&ts, nullptr);
            if (sh->progress != last) { last = sh->progress; idle = 0; } else idle += 0.002;
            if (idle > hangSeconds) { kill(pid, SIGKILL); waitpid(pid, &st, 0); how = "hang"; break; }
        }
        if (how.empty()) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) return;
            how = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
        }
        from = onDeath(sh->line, how);
    }
}
inline Shared * makeShared() {
    return (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
