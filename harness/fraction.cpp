// Records histories of fractions. Script lines: "reset" or "OP K I J A B N FORM" (see spec/Fraction.tla).
#include "common.h"
#include "Fraction.h"
using namespace pgbn; using pgbn::experimental::Fraction;
static const int NF = 6;
static vector<unsigned> g_err;
static void onErr(unsigned c) { if (c) g_err.push_back(c); }
static unsigned char g_buf[1 << 16];
static string num(const BigInteger & x) { size_t n = x.isZero() ? 0 : x.copyMagDataTo(g_buf, sizeof g_buf); return numeral(x.isNegative(), g_buf, n); }
static BigInteger mk(const string & h) { return BigInteger(h, 16); }
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a"); static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big);
        for (unsigned code = 0; code <= 16; ++code) Status::registe(code, "c", onErr, code);
        vector<Fraction> f(NF); vector<bool> bad(NF);
        auto dump = [&] { string s = "["; for (int k = 0; k < NF; ++k) s += string(k ? "," : "") + (bad[k] ? string("[]") : "[" + jstr(num(f[k].getNum())) + "," + jstr(num(f[k].getDen())) + "]"); return s + "]"; };
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            vector<string> c; { std::stringstream ss(lines[ln]); string t; while (ss >> t) c.push_back(t); }
            fflush(out); sh->line = (int64_t)ln; sh->progress = sh->progress + 1;
            g_err.clear();
            if (c[0] == "reset") { f = vector<Fraction>(NF); bad = vector<bool>(NF); fprintf(out, "{\"ln\":%zu,\"op\":\"reset\",\"all\":%s}\n", ln + 1, dump().c_str()); continue; }
            const string & op = c[0]; int k = atoi(c[1].c_str()), i = atoi(c[2].c_str()), j = atoi(c[3].c_str()), n = atoi(c[6].c_str()); const string & fm = c[7];
            string o; bool ok = fm == "t"; bool flag = false;
            if (op == "make") { if (fm == "0") { f[k] = Fraction(mk(c[4]), mk(c[5])); ok = g_err.empty(); } else f[k] = Fraction(mk(c[4]), mk(c[5]), &ok); flag = true; bad[k] = c[5] == "0"; }
            else if (op == "int") { f[k] = Fraction(mk(c[4])); bad[k] = false; }
            else if (op == "new") { f[k] = Fraction(); bad[k] = false; }
            else if (op == "copy") { f[k] = f[i]; bad[k] = false; }
            else if (op == "setnum") f[k].setNum(mk(c[4]));
            else if (op == "setden") { if (fm == "0") { f[k].setDen(mk(c[5])); ok = g_err.empty(); } else f[k].setDen(mk(c[5]), &ok); flag = true; }
            else if (op == "add") { f[k] = f[i] + f[j]; bad[k] = false; }
            else if (op == "sub") { f[k] = f[i] - f[j]; bad[k] = false; }
            else if (op == "mul") { f[k] = f[i] * f[j]; bad[k] = false; }
            else if (op == "div") { f[k] = f[i] / f[j]; bad[k] = false; }
            else if (op == "recip") { if (fm == "0") { f[k] = f[i].reciprocal(); ok = g_err.empty(); } else f[k] = f[i].reciprocal(&ok); flag = true; bad[k] = false; }
            else if (op == "text") o = jstr(fm == "0" && n == 10 ? f[i].toString() : f[i].toString(n));
            else if (op == "dec") o = jstr(fm == "0" && n == 8 ? f[i].toDecimal() : f[i].toDecimal(n));
            else if (op == "gcd") o = jstr(num(algo::gcd(mk(c[4]), mk(c[5]))));
            else { fprintf(stderr, "bad: %s\n", lines[ln].c_str()); _exit(97); }
            if (flag) o = ok ? "true" : "false";
            string es; for (unsigned x : g_err) es += (es.empty() ? "" : ",") + std::to_string(x);
            fprintf(out, "{\"ln\":%zu,\"op\":\"%s\",\"k\":%d,\"i\":%d,\"j\":%d,\"a\":\"%s\",\"b\":\"%s\",\"n\":%d,\"o\":[%s],\"err\":[%s],\"all\":%s}\n", ln + 1, op.c_str(), k, i, j, c[4].c_str(), c[5].c_str(), n, o.c_str(), es.c_str(), dump().c_str());
        }
        sh->line = (int64_t)lines.size(); fflush(out); fclose(out);
    };
    int deaths = 0, hangs = 0;
    auto onDeath = [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") exit(3);
        FILE * out = fopen(argv[2], "a"); fprintf(out, "{\"ln\":%lld,\"op\":\"crash\",\"how\":\"%s\"}\n", (long long)ln + 1, how.c_str()); fclose(out);
        ++deaths; hangs += how == "hang"; if (deaths > 40 || hangs > 2) return -1;
        for (++ln; ln < (int64_t)lines.size(); ++ln) if (lines[ln].compare(0, 5, "reset") == 0) return ln;
        return -1;
    };
    supervise(sh, 0, 20, segment, onDeath);
    return 0;
}
