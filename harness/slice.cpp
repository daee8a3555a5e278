// Records histories of slices. Script lines: "reset TYPE" or "OP K J LO HI X C OBS" (see spec/SliceGen.tla).
#include "common.h"
#include "Slice.h"
using namespace pgbn;
static const int NS = 8;
template <class T> T el(int x);
template <> uint32_t el<uint32_t>(int x) { return (uint32_t)x; }
template <> string el<string>(int x) { return x == 0 ? string() : string(30, 'x') + std::to_string(x); }   // longer than the small string buffer
static int back(const uint32_t & x) { return x > 1000000 ? -1 : (int)x; }
static int back(const string & s) { return s.empty() ? 0 : s.size() < 31 ? -1 : atoi(s.c_str() + 30); }

struct Base { virtual ~Base() {} virtual bool exec(const vector<string> & c, string & o) = 0; virtual string dump(const string & obs) = 0; };
template <class T> struct M : Base {
    using S = Slice<T>;
    std::unique_ptr<S> r[NS];
    M() { for (auto & x : r) x.reset(new S); }
    string dump(const string & obs) override {
        string s = "[";
        for (char ch : obs) if (isdigit(ch)) {
            S & x = *r[ch - '0']; const S & cx = x; string a, b; size_t n = cx.count();
            if (n > 1000) n = 1000;
            for (size_t k = 0; k < n; ++k) a += (k ? "," : "") + std::to_string(back(cx[k]));
            size_t m = 0; bool same = cx.end() - cx.begin() == x.end() - x.begin();
            for (auto it = cx.begin(); it != cx.end() && m < 1000; ++it, ++m) b += (m ? "," : "") + std::to_string(back(*it));
            if (!same) b += m ? ",-2" : "-2";
            s += string(s.size() > 1 ? "," : "") + "[" + ch + ",[" + a + "],[" + b + "]," + std::to_string(cx.count()) + "]";
        }
        return s + "]";
    }
    bool exec(const vector<string> & c, string & o) override {
        const string & op = c[0]; int k = atoi(c[1].c_str()), j = atoi(c[2].c_str()), lo = atoi(c[3].c_str()), hi = atoi(c[4].c_str()), xi = atoi(c[5].c_str());
        S & s = *r[k]; T x = el<T>(xi);
        if (op == "new") r[k].reset(new S);
        else if (op == "make") {
            auto v = std::make_shared<vector<T>>(); std::stringstream ss(c[6]); string q; while (std::getline(ss, q, ',')) v->push_back(el<T>(atoi(q.c_str())));
            if (hi < 0) r[k].reset(lo ? new S(v, lo) : new S(v)); else r[k].reset(new S(v, lo, hi)); }
        else if (op == "copy") { if (k == j) s = *r[k]; else if (xi % 2) s = *r[j]; else r[k].reset(new S(*r[j])); }
        else if (op == "move") { if (xi % 2) s = std::move(*r[j]); else { std::unique_ptr<S> n(new S(std::move(*r[j]))); r[k] = std::move(n); } }
        else if (op == "swap") { if (xi % 2) s.swap(*r[j]); else pgbn::swap(s, *r[j]); }
        else if (op == "clone") { if (&s.cloneData() != &s) return false; }
        else if (op == "append") { if (&s.append(x) != &s) return false; }
        else if (op == "prepend") { if (&s.prepend(x) != &s) return false; }
        else if (op == "preext") { if (&s.preExtend(lo, x) != &s) return false; }
        else if (op == "appendown") s.append(s[hi]);
        else if (op == "prependown") s.prepend(s[hi]);
        else if (op == "preextown") s.preExtend(lo, s[hi]);
        else if (op == "slice") { if (&s.slice(lo, hi) != &s) return false; }
        else if (op == "sliced") *r[k] = r[j]->sliced(lo, hi);
        else if (op == "set") s[lo] = x;
        else if (op == "fill") { for (auto & z : s) z = x; }
        else if (op == "rel") o = string(s.hasSameBaseData(*r[j]) ? "true" : "false") + (s.weakEquals(*r[j]) ? ",true" : ",false");
        else return false;
        return true;
    }
};
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a"); static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big);
        std::unique_ptr<Base> m;
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            vector<string> c; { std::stringstream ss(lines[ln]); string t; while (ss >> t) c.push_back(t); }
            fflush(out); sh->line = (int64_t)ln; sh->progress = sh->progress + 1;
            if (c[0] == "reset") {
                m.reset(); if (c[1] == "str") m.reset(new M<string>); else m.reset(new M<uint32_t>);
                fprintf(out, "{\"ln\":%zu,\"op\":\"reset\",\"v\":%s}\n", ln + 1, m->dump("01234567").c_str()); continue;
            }
            string o; if (!m->exec(c, o)) { fprintf(stderr, "bad: %s\n", lines[ln].c_str()); _exit(97); }
            fprintf(out, "{\"ln\":%zu,\"op\":\"%s\",\"k\":%s,\"j\":%s,\"lo\":%s,\"hi\":%s,\"x\":%s,\"c\":[%s],\"o\":[%s],\"v\":%s}\n", ln + 1, c[0].c_str(), c[1].c_str(), c[2].c_str(), c[3].c_str(), c[4].c_str(), c[5].c_str(),
                c[6] == "-" ? "" : c[6].c_str(), o.c_str(), m->dump(c[7]).c_str());
        }
        sh->line = (int64_t)lines.size(); fflush(out); m.reset(); fclose(out);
    };
    int deaths = 0, hangs = 0;
    auto onDeath = [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") exit(3);
        FILE * out = fopen(argv[2], "a"); fprintf(out, "{\"ln\":%lld,\"op\":\"crash\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(out);
        ++deaths; hangs += how == "hang"; if (deaths > 40 || hangs > 2) return -1;
        for (++ln; ln < (int64_t)lines.size(); ++ln) if (lines[ln].compare(0, 5, "reset") == 0) return ln;
        return -1;
    };
    supervise(sh, 0, 20, segment, onDeath);
    return 0;
}
