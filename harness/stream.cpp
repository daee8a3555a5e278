// Records histories of text streams. Script lines: "reset" or "OP K J C OWN N T OBS" (see spec/StreamGen.tla).
#include "common.h"
#include "streams/StringReadStream.h"
using S = pg::base::StringReadStream;
// memory obtained during the library's calls and not given back (without the sanitizer, which has a malloc of its own)
static bool lib = false; static long live = 0;
#ifndef __SANITIZE_ADDRESS__
extern "C" void * __libc_malloc(size_t); extern "C" void __libc_free(void *);
static void * held[4096];
extern "C" void * malloc(size_t n) { void * p = __libc_malloc(n); if (lib && p) for (auto & h : held) if (!h) { h = p; ++live; break; } return p; }
extern "C" void free(void * p) { if (p && live) for (auto & h : held) if (h == p) { h = nullptr; --live; break; } __libc_free(p); }
#endif
struct In { In() { lib = true; } ~In() { lib = false; } };
static const int NS = 6, NSRC = 3;
struct Room {
    std::unique_ptr<string> src[NSRC]; alignas(S) unsigned char mem[NS][sizeof(S)]; bool on[NS] = {};
    S & at(int k) { return *reinterpret_cast<S *>(mem[k]); }
    Room() { for (auto & x : src) x.reset(new string); }
    void close() { for (int k = 0; k < NS; ++k) if (on[k]) { In in; at(k).~S(); on[k] = false; } }
    ~Room() { close(); }
    string dump(const string & obs) {
        string s = "[";
        for (char ch : obs) if (isdigit(ch)) {
            int k = ch - '0'; if (!on[k]) continue; const S & c = at(k);
            bool e = c.eof(); int p = (unsigned char)c.peek();
            s += string(s.size() > 1 ? "," : "") + "[" + ch + "," + (e ? "true" : "false") + "," + std::to_string(p) + "," + std::to_string((long long)at(k).tell()) + "]";
        }
        return s + "]";
    }
    bool exec(const vector<string> & c, string & o) {
        const string & op = c[0]; int k = atoi(c[1].c_str()), j = atoi(c[2].c_str()); bool cs = c[3] == "1", own = c[4] == "1"; int n = atoi(c[5].c_str());
        if (op == "text") {
            for (auto & x : *src[k]) x = '#';
            string t; if (c[6] != "-") for (auto & x : split(c[6])) t += (char)atoi(x.c_str());
            src[k].reset(new string(t)); src[k]->shrink_to_fit(); return true; }
        if (k < 0 || k >= NS || j < 0) return false;
        if (op == "new") { if (on[k]) return false; In in; const string & x = *src[j];
            if (cs) { if (own) new (mem[k]) S(x.c_str(), true); else if (n % 2) new (mem[k]) S(x.c_str(), false); else new (mem[k]) S(x.c_str()); }
            else { if (own) new (mem[k]) S(x, true); else new (mem[k]) S(x); } on[k] = true; }
        else if (op == "set") { In in; const string & x = *src[j]; if (cs) at(k) = S(x.c_str(), own); else at(k) = S(x, own); }
        else if (op == "del") { In in; at(k).~S(); memset(mem[k], 0xa5, sizeof mem[k]); on[k] = false; }
        else if (op == "make") { In in; new (mem[k]) S(std::move(at(j))); on[k] = true; }
        else if (op == "move") { In in; S & r = (at(k) = std::move(at(j))); if (&r != &at(k)) return false; }
        else if (op == "get") for (int i = 0; i < n; ++i) { int ch = (unsigned char)at(k).get(); o += (i ? "," : "") + std::to_string(ch); }
        else return false;
        return true;
    }
    static vector<string> split(const string & s) { vector<string> r; std::stringstream ss(s); string t; while (std::getline(ss, t, ',')) r.push_back(t); return r; }
};
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a"); static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big);
        std::unique_ptr<Room> m;
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            vector<string> c; { std::stringstream ss(lines[ln]); string t; while (ss >> t) c.push_back(t); }
            fflush(out); sh->line = (int64_t)ln; sh->progress = sh->progress + 1;
            if (c[0] == "reset") {
                if (m) m->close(); long n = live; live = 0;
#ifndef __SANITIZE_ADDRESS__
                memset(held, 0, sizeof held);
#endif
                m.reset(new Room); fprintf(out, "{\"ln\":%zu,\"op\":\"reset\",\"live\":%ld}\n", ln + 1, n); continue;
            }
            string o; if (!m->exec(c, o)) { fprintf(stderr, "bad: %s\n", lines[ln].c_str()); _exit(97); }
            fprintf(out, "{\"ln\":%zu,\"op\":\"%s\",\"k\":%s,\"j\":%s,\"c\":%s,\"own\":%s,\"n\":%s,\"t\":[%s],\"o\":[%s],\"v\":%s}\n", ln + 1, c[0].c_str(), c[1].c_str(), c[2].c_str(), c[3] == "1" ? "true" : "false", c[4] == "1" ? "true" : "false", c[5].c_str(),
                c[6] == "-" ? "" : c[6].c_str(), o.c_str(), m->dump(c[7]).c_str());
        }
        sh->line = (int64_t)lines.size(); m.reset(); fflush(out); fclose(out);
    };
    int deaths = 0, hangs = 0;
    auto onDeath = [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") exit(3);
        FILE * out = fopen(argv[2], "a"); fprintf(out, "{\"ln\":%lld,\"op\":\"crash\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(out);
        ++deaths; hangs += how == "hang"; if (deaths > 40 || hangs > 2) return -1;
        for (++ln; ln < (int64_t)lines.size(); ++ln) if (lines[ln].compare(0, 5, "reset") == 0) return ln;
        return -1;
    };
    supervise(sh, 0, 20, segment, onDeath);
    return 0;
}
