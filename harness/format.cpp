// Records calls of pgfmt::format / formatAppend. Script lines: "reset" or "format FMT RES ARG..." (FMT and RES as hexadecimal bytes, = for
// none; RES: "-" calls format, otherwise the text is appended to RES). ARG: a letter, ':', the value.
//   h,i,l int16/32/64   H,I,L uint16/32/64   y uint8   b bool   k char   s std::string   c const char *   a char[8]   f,d float/double NUM/2^EXP as "NUM,EXP"
//   n BigIntegerImpl   v vector of int64   w vector of std::string   p pair of int32 and std::string
#include "common.h"
#include <variant>
#include "pgfwd.h"
#include "BigIntegerImpl.h"
using pgbn::BigIntegerImpl;
struct Arr { char a[8]; };
using Any = std::variant<int64_t, string, int16_t, int32_t, uint16_t, uint32_t, uint64_t, uint8_t, bool, char, const char *, Arr, float, double, BigIntegerImpl, vector<int64_t>, vector<string>, std::pair<int32_t, string>>;
using Few = std::variant<int64_t, string, BigIntegerImpl>;
template <class T> const T & real(const T & x) { return x; }
static const char (&real(const Arr & x))[8] { return x.a; }

static vector<string> split(const string & s, char c) { vector<string> r; std::stringstream ss(s); string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
static string bytes(const string & s) { string r = "["; for (unsigned char c : s) r += (r.size() > 1 ? "," : "") + std::to_string(c); return r + "]"; }
static string rec(const char * t, const string & v) { return string("{\"t\":\"") + t + "\",\"v\":" + v + "}"; }
static string q(const string & s) { return "\"" + s + "\""; }

static Any arg(const string & a, string & js) {
    string v = a.substr(2); if (v == "=") v = "";
    switch (a[0]) {
    case 'h': js = rec("i", q(hexI(parseHexI(v)))); return (int16_t)parseHexI(v);
    case 'i': js = rec("i", q(hexI(parseHexI(v)))); return (int32_t)parseHexI(v);
    case 'l': js = rec("i", q(hexI(parseHexI(v)))); return (int64_t)parseHexI(v);
    case 'H': js = rec("u", q(hexU(parseHexU(v)))); return (uint16_t)parseHexU(v);
    case 'I': js = rec("u", q(hexU(parseHexU(v)))); return (uint32_t)parseHexU(v);
    case 'L': js = rec("u", q(hexU(parseHexU(v)))); return (uint64_t)parseHexU(v);
    case 'y': js = rec("y", q(hexU(parseHexU(v)))); return (uint8_t)parseHexU(v);
    case 'b': js = rec("b", v == "1" ? "true" : "false"); return v == "1";
    case 'k': js = rec("k", std::to_string((unsigned char)unhex(v)[0])); return unhex(v)[0];
    case 's': js = rec("s", bytes(unhex(v))); return unhex(v);
    case 'c': { string s = unhex(v); char * p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); js = rec("s", bytes(s)); return (const char *)p; }
    case 'a': { Arr x; memset(&x, 0, sizeof x); string s = unhex(v).substr(0, 7); memcpy(x.a, s.data(), s.size()); js = rec("s", bytes(s)); return x; }
    case 'f': case 'd': { auto w = split(v, ','); int64_t n = parseHexI(w[0]); int e = atoi(w[1].c_str()); js = rec("d", "[" + q(hexI(n)) + "," + w[1] + "]");
                double x = (double)n; for (int k = 0; k < e; ++k) x /= 2; if (a[0] == 'f') return (float)x; return x; }
    case 'n': { js = rec("n", q(v)); return BigIntegerImpl(v, 16); }
    case 'v': { vector<int64_t> r; string j; for (auto & x : split(v, ',')) { r.push_back(parseHexI(x)); j += (j.empty() ? "" : ",") + rec("i", q(hexI(parseHexI(x)))); } js = rec("l", "[" + j + "]"); return r; }
    case 'w': { vector<string> r; string j; for (auto & x : split(v, ',')) { r.push_back(unhex(x == "=" ? "" : x)); j += (j.empty() ? "" : ",") + rec("s", bytes(r.back())); } js = rec("l", "[" + j + "]"); return r; }
    case 'p': { auto w = split(v, ','); string s = unhex(w[1] == "=" ? "" : w[1]); js = rec("p", "[" + rec("i", q(hexI(parseHexI(w[0])))) + "," + rec("s", bytes(s)) + "]"); return std::pair<int32_t, string>((int32_t)parseHexI(w[0]), s); }
    }
    fprintf(stderr, "bad argument %s\n", a.c_str()); _exit(97);
}
static Few few(const Any & a) {
    if (auto p = std::get_if<int64_t>(&a)) return *p;
    if (auto p = std::get_if<string>(&a)) return *p;
    if (auto p = std::get_if<BigIntegerImpl>(&a)) return *p;
    fprintf(stderr, "argument not among the first 3 types\n"); _exit(97);
}
template <class... T> static string call(const string & f, const string * res, const T &... x) {
    if (!res) return pgfmt::format(f, x...);
    string r = *res;
    // a text equal to the target is the target itself
    if constexpr (sizeof...(x) == 1) if constexpr ((std::is_same_v<T, string> && ...)) { const string & only = (x, ...); if (only == r) { pgfmt::formatAppend(r, f, r); return r; } }
    pgfmt::formatAppend(r, f, x...); return r;
}
static string run(const string & f, const string * res, vector<Any> & a) {
    switch (a.size()) {
    case 0: return call(f, res);
    case 1: return std::visit([&](const auto & x) { return call(f, res, real(x)); }, a[0]);
    case 2: { Few b = few(a[1]); return std::visit([&](const auto & x, const auto & y) { return call(f, res, real(x), y); }, a[0], b); }
    case 3: { Few b = few(a[0]), c = few(a[1]), d = few(a[2]); return std::visit([&](const auto & x, const auto & y, const auto & z) { return call(f, res, x, y, z); }, b, c, d); }
    case 4: return call(f, res, std::get<string>(a[0]), std::get<int64_t>(a[1]), std::get<BigIntegerImpl>(a[2]), std::get<string>(a[3]));
    }
    // more: all text
    vector<string> s; for (auto & x : a) s.push_back(std::get<string>(x));
    if (s.size() == 12) return call(f, res, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11]);
    fprintf(stderr, "bad number of arguments\n"); _exit(97);
}
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a"); static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big);
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            auto c = split(lines[ln], ' ');
            if (c[0] == "reset") continue;
            if (c[0] != "format") { fprintf(stderr, "bad: %s\n", lines[ln].c_str()); _exit(97); }
            fflush(out); sh->line = (int64_t)ln; sh->progress = sh->progress + 1;
            string f = unhex(c[1] == "=" ? "" : c[1]), r = c[2] == "-" || c[2] == "=" ? "" : unhex(c[2]), js; vector<Any> a;
            for (size_t k = 3; k < c.size(); ++k) { string j; a.push_back(arg(c[k], j)); js += (js.empty() ? "" : ",") + j; }
            string o = run(f, c[2] == "-" ? nullptr : &r, a);
            fprintf(out, "{\"ln\":%zu,\"op\":\"format\",\"f\":%s,\"r\":%s,\"a\":[%s],\"o\":%s}\n", ln + 1, bytes(f).c_str(), bytes(r).c_str(), js.c_str(), bytes(o).c_str());
        }
        sh->line = (int64_t)lines.size(); fflush(out); fclose(out);
    };
    int deaths = 0, hangs = 0;
    auto onDeath = [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") exit(3);
        FILE * out = fopen(argv[2], "a"); fprintf(out, "{\"ln\":%lld,\"op\":\"crash\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(out);
        ++deaths; hangs += how == "hang"; if (deaths > 40 || hangs > 2) return -1;
        return ln + 1 < (int64_t)lines.size() ? ln + 1 : -1;
    };
    supervise(sh, 0, 20, segment, onDeath);
    return 0;
}
