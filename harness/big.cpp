// Executes a script of operations on eight number registers through one of the three API layers of the library
// (B: BigInteger, I: BigIntegerImpl, C: C interface) and records one event per operation.
//   usage: big SCRIPT OUT.ndjson
//   script line: OP FORM D S N I T     (lists comma separated, "-" = none; T = text as hexadecimal bytes, "=" = empty)
#include "common.h"
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Slice.h"
#include "Status.h"
#include "errInfos.h"
#include "pgbn.h"

using namespace pgbn;
static const int NR = 8;

struct Cmd { string op, form; vector<int> d, s; long n = 0; vector<string> i; string t; };
static vector<string> split(const string & s, char c) { vector<string> r; string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
// a text that is a part of a longer one ("1..." behind it), or fills its memory to the last byte
struct Part { char * p; size_t n, m; Part(const string & t) : n(t.size()), m(n % 2 ? n : n + 2) { p = (char *)malloc(m ? m : 1); memset(p, '1', m ? m : 1); memcpy(p, t.data(), n); } ~Part() { memset(p, '9', m); free(p); } operator StringArg() const { return StringArg(p, n); } };
static Cmd parseCmd(const string & line) {
    Cmd c; std::istringstream is(line); string d, s, n, i, t;
    is >> c.op >> c.form >> d >> s >> n >> i >> t;
    if (d != "-") for (auto & x : split(d, ',')) c.d.push_back(atoi(x.c_str()));
    if (s != "-") for (auto & x : split(s, ',')) c.s.push_back(atoi(x.c_str()));
    if (n != "-") c.n = atol(n.c_str());
    if (i != "-") c.i = split(i, ',');
    if (t != "-" && t != "=") c.t = unhex(t);
    return c;
}

#ifndef PER_THREAD
#define PER_THREAD
#endif
static PER_THREAD vector<unsigned> g_err;
static void onErr(unsigned code) { if (code) g_err.push_back(code); }
extern "C" void onErrC(void * p) { onErr((unsigned)(uintptr_t)p); }

struct Outs {
    string s; 
    void raw(const string & x) { if (!s.empty()) s += ","; s += x; }
    void b(bool x) { raw(x ? "true" : "false"); }
    void i(long x) { raw(std::to_string(x)); }
    void str(const string & x) { raw(jstr(x)); }
};

static PER_THREAD unsigned char g_buf[1 << 20];
struct Machine {
    bool moved[NR] = {};
    virtual ~Machine() {}
    virtual string value(int k) = 0;          // numeral from the sign and the magnitude bytes
    virtual bool canonical(int k) = 0;        // indistinguishable from a freshly imported number of the same value
    virtual bool exec(const Cmd & c, Outs & o) = 0;   // false: no such operation in this layer
    string dump(int k) { return moved[k] ? "M" : value(k); }
};
static bool sgn3(Outs & o, int c) { o.i(c < 0 ? -1 : c > 0 ? 1 : 0); return true; }

// ---------------------------------------------------------------- BigInteger
struct MB : Machine {
    std::unique_ptr<BigInteger> r[NR];
    MB() { for (auto & x : r) x.reset(new BigInteger); }
    string value(int k) override {
        const BigInteger & x = *r[k];
        size_t n = x.isZero() ? 0 : x.copyMagDataTo(g_buf, sizeof g_buf);
        return numeral(x.isNegative(), g_buf, n);
    }
    bool canonical(int k) override {
        BigInteger & x = *r[k];
        size_t n = x.isZero() ? 0 : x.copyMagDataTo(g_buf, sizeof g_buf - 1);
        g_buf[n] = 0;
        BigInteger f(n + 1, g_buf, true);
        if (x.isNegative()) f.negate();
        return x.cmp(f) == 0 && f.cmp(x) == 0 && x.isZero() == f.isZero() && x.isPositive() == f.isPositive() && x.isNegative() == f.isNegative();
    }
    const BigInteger & v(const Cmd & c, int k) { return *r[c.s[k]]; }
    int64_t im(const Cmd & c, int k) { return parseHexI(c.i[-c.s[k] - 1]); }
    template <class F1, class F2, class F3, class F4, class F5>
    bool bin(const Cmd & c, F1 bb, F2 bi, F3 ib, F4 a, F5 ai) {
        int d = c.d[0];
        if (c.form == "BB") { BigInteger t = bb(v(c, 0), v(c, 1)); put(d, std::move(t)); }
        else if (c.form == "Bi") put(d, bi(v(c, 0), im(c, 1)));
        else if (c.form == "iB") put(d, ib(im(c, 0), v(c, 1)));
        else if (c.form == "A") { BigInteger & z = a(*r[d], v(c, 1)); if (&z != r[d].get()) abort(); }
        else if (c.form == "Ai") { BigInteger & z = ai(*r[d], im(c, 1)); if (&z != r[d].get()) abort(); }
        else return false;
        moved[d] = false;
        return true;
    }
    // assignment of a returned value, as a program would write it
    void put(int d, BigInteger && x) { *r[d] = std::move(x); moved[d] = false; }
    bool exec(const Cmd & c, Outs & o) override {
        const string & op = c.op; int d = c.d.empty() ? -1 : c.d[0];
#define BIN(NAME, OP) if (op == NAME) return bin(c, \
        [](const BigInteger & a, const BigInteger & b) { return a OP b; }, [](const BigInteger & a, int64_t b) { return a OP b; }, \
        [](int64_t a, const BigInteger & b) { return a OP b; }, \
        [](BigInteger & a, const BigInteger & b) -> BigInteger & { return a OP##= b; }, [](BigInteger & a, int64_t b) -> BigInteger & { return a OP##= b; });
        BIN("add", +) BIN("sub", -) BIN("mul", *) BIN("div", /) BIN("mod", %) BIN("and", &) BIN("or", |) BIN("xor", ^)
#undef BIN
        if (op == "shl") { if (c.form == "A") *r[d] <<= (uint64_t)c.n; else put(d, v(c, 0) << (int64_t)c.n); return true; }
        if (op == "shr") { if (c.form == "A") *r[d] >>= (uint64_t)c.n; else put(d, v(c, 0) >> (int64_t)c.n); return true; }
        if (op == "shlz") { if (c.form == "A") *r[d] <<= parseHexU(c.i[0]); else put(d, v(c, 0) << (int64_t)parseHexU(c.i[0])); return true; }
        if (op == "shrz") { if (c.form == "A") *r[d] >>= parseHexU(c.i[0]); else put(d, v(c, 0) >> (int64_t)parseHexU(c.i[0])); return true; }
        if (op == "blockz") { o.str(hexU(v(c, 0).get2sComplement((SizeType)parseHexU(c.i[0])))); return true; }
        if (op == "neg") { if (c.form == "A") r[d]->negate(); else if (c.form == "n") put(d, v(c, 0).negated()); else put(d, -v(c, 0)); return true; }
        if (op == "abs") { if (c.form == "A") r[d]->abs(); else put(d, v(c, 0).absoluted()); return true; }
        if (op == "pos") { put(d, +v(c, 0)); return true; }
        if (op == "not") { if (c.form == "A") r[d]->notSelf(); else put(d, ~v(c, 0)); return true; }
        if (op == "notbits") { r[d]->notBits(); return true; }
        if (op == "inc") { BigInteger & z = ++*r[d]; return &z == r[d].get(); }
        if (op == "dec") { BigInteger & z = --*r[d]; return &z == r[d].get(); }
        if (op == "postinc") { BigInteger t = (*r[c.d[1]])++; put(d, std::move(t)); return true; }
        if (op == "postdec") { BigInteger t = (*r[c.d[1]])--; put(d, std::move(t)); return true; }
        if (op == "block") { o.str(hexU(v(c, 0).get2sComplement((SizeType)c.n))); return true; }
        if (op == "cmp") {
            if (c.form == "BB") { auto & a = v(c, 0); auto & b = v(c, 1); sgn3(o, a.cmp(b)); o.b(a == b); o.b(a != b); o.b(a < b); o.b(a <= b); o.b(a > b); o.b(a >= b); }
            else if (c.form == "Bi") { auto & a = v(c, 0); int64_t b = im(c, 1); sgn3(o, a.cmp(b)); o.b(a == b); o.b(a != b); o.b(a < b); o.b(a <= b); o.b(a > b); o.b(a >= b); }
            else { int64_t a = im(c, 0); auto & b = v(c, 1); sgn3(o, -b.cmp(a)); o.b(a == b); o.b(a != b); o.b(a < b); o.b(a <= b); o.b(a > b); o.b(a >= b); }
            return true;
        }
        if (op == "preds") { auto & a = v(c, 0); o.b(a.isZero()); o.b(a.isOne()); o.b(a.isNegOne()); o.b(a.isPositive()); o.b(a.isNegative()); o.b(a.isEven()); o.b(a.isOdd()); return true; }
        if (op == "print") { o.str(c.form == "as" ? v(c, 0).as<string>() : v(c, 0).toString((int)c.n)); return true; }
        if (op == "parse") { bool ok = c.form == "t"; if (c.form == "0") { r[d]->assign(Part(c.t), (int)c.n); o.b(g_err.empty()); } else { r[d]->assign(Part(c.t), (int)c.n, &ok); o.b(ok); } moved[d] = false; return true; }
        if (op == "parsenew") { bool ok = c.form == "t"; BigInteger x((StringArg)Part(c.t), (int)c.n, &ok); put(d, std::move(x)); o.b(ok); return true; }
        if (op == "toi64") { bool ok = c.form == "t"; int64_t x;
            if (c.form == "try") ok = v(c, 0).tryGetInt64(x); else if (c.form == "0") { x = v(c, 0).getInt64(); ok = g_err.empty(); } else x = v(c, 0).getInt64(&ok);
            o.b(ok); o.str(hexI(x)); return true; }
        if (op == "tou64") { bool ok = c.form == "t"; uint64_t x;
            if (c.form == "try") ok = v(c, 0).tryGetUInt64(x); else if (c.form == "0") { x = v(c, 0).getUInt64(); ok = g_err.empty(); } else x = v(c, 0).getUInt64(&ok);
            o.b(ok); o.str(hexU(x)); return true; }
        if (op == "trunc") { auto & a = v(c, 0); const string & f = c.form;
            if (f == "c") o.str(hexI(a.as<char>())); else if (f == "uc") o.str(hexU(a.as<unsigned char>()));
            else if (f == "s") o.str(hexI(a.as<short>())); else if (f == "us") o.str(hexU(a.as<unsigned short>()));
            else if (f == "i") o.str(hexI(a.as<int>())); else if (f == "ui") o.str(hexU(a.as<unsigned int>()));
            else if (f == "l") o.str(hexI(a.as<long>())); else if (f == "ul") o.str(hexU(a.as<unsigned long>()));
            else if (f == "ll") o.str(hexI(a.as<long long>())); else if (f == "ull") o.str(hexU(a.as<unsigned long long>())); else return false;
            return true; }
        if (op == "asbool") { o.b(v(c, 0).as<bool>()); return true; }
        if (op == "ofi64") { int64_t x = im(c, 0); if (c.form == "eq") *r[d] = x; else if (c.form == "as") r[d]->assign(x); else if (c.form == "new") r[d].reset(new BigInteger(x)); else put(d, BigInteger(x)); moved[d] = false; return true; }
        if (op == "ofbin") { if (c.form == "as") r[d]->fromBinary(c.t.data(), c.t.size(), c.n != 0); else put(d, BigInteger(c.t.size(), c.t.data(), c.n != 0)); moved[d] = false; return true; }
        if (op == "tomag" || op == "tomagz") { // z: a limit far beyond the number
            size_t lim = op == "tomag" ? (size_t)c.n : (size_t)parseHexU(c.i[0]), m = std::min(lim, sizeof g_buf); vector<unsigned char> b(m + 64, 0xa5); size_t k = v(c, 0).copyMagDataTo(b.data() + 32, lim);
            bool g = k <= m; for (size_t j = 0; j < b.size(); ++j) if ((j < 32 || j >= 32 + std::min(k, m)) && b[j] != 0xa5) g = false;
            o.str(hexOf(b.data() + 32, std::min(k, m))); o.i((long)k); o.b(g); return true; }
        if (op == "copy") { if (c.form == "new") r[d].reset(new BigInteger(v(c, 0))); else *r[d] = v(c, 0); moved[d] = false; return true; }
        if (op == "move") { int s = c.s[0]; if (c.form == "new") r[d].reset(new BigInteger(std::move(*r[s]))); else *r[d] = std::move(*r[s]); moved[d] = false; if (d != s) moved[s] = true; return true; }
        if (op == "swap") { std::swap(*r[c.d[0]], *r[c.d[1]]); std::swap(moved[c.d[0]], moved[c.d[1]]); return true; }
        if (op == "zero") { r[d].reset(new BigInteger); moved[d] = false; return true; }
        return false;
    }
};

// ------------------------------------------------------------ BigIntegerImpl
struct MI : Machine {
    std::unique_ptr<BigIntegerImpl> r[NR];
    MI() { for (auto & x : r) x.reset(new BigIntegerImpl); }
    virtual BigIntegerImpl & at(int k) { return *r[k]; }
    string value(int k) override {
        const BigIntegerImpl & x = at(k);
        size_t n = x.isZero() ? 0 : x.copyMagDataTo(g_buf, sizeof g_buf);
        return numeral(x.flagsContains(BNFlag::NEGATIVE), g_buf, n);
    }
    bool canonical(int k) override {
        BigIntegerImpl & x = at(k);
        size_t n = x.isZero() ? 0 : x.copyMagDataTo(g_buf, sizeof g_buf - 1);
        g_buf[n] = 0;
        BigIntegerImpl f(g_buf, n + 1, true);
        if (x.flagsContains(BNFlag::NEGATIVE)) f.negate();
        return x.cmp(f) == 0 && f.cmp(x) == 0 && x.getMagU32Count() == f.getMagU32Count() && x.getMagBitCount() == f.getMagBitCount() &&
            x.flagsContains(BNFlag::ZERO) == f.flagsContains(BNFlag::ZERO) && x.flagsContains(BNFlag::POSITIVE) == f.flagsContains(BNFlag::POSITIVE) && x.flagsContains(BNFlag::NEGATIVE) == f.flagsContains(BNFlag::NEGATIVE);
    }
    const BigIntegerImpl & v(const Cmd & c, int k) { return at(c.s[k]); }
    int64_t im(const Cmd & c, int k) { return parseHexI(c.i[-c.s[k] - 1]); }
    bool exec(const Cmd & c, Outs & o) override {
        const string & op = c.op; int d = c.d.empty() ? -1 : c.d[0];
        // the compound forms: the destination is the first operand
#define ASG(NAME, FN) if (op == NAME) { if (c.form == "A") r[d]->FN(v(c, 1)); else if (c.form == "Ai") r[d]->FN(im(c, 1)); else return false; return true; }
        ASG("add", addAssign) ASG("sub", subAssign)
        if (op == "mul" && c.form == "S") { BigIntegerImpl::mul(*r[d], v(c, 0), v(c, 1)); moved[d] = false; return true; }
        ASG("mul", mulAssign) ASG("div", divAssign) ASG("and", andAssign) ASG("or", orAssign) ASG("xor", xorAssign)
#undef ASG
        if (op == "divrem") { // d = quotient, remainder
            if (c.form == "A") { r[d]->divideAssignAndReminder(v(c, 1), *r[c.d[1]]); }
            else if (c.form == "Ai") r[d]->divideAssignAndReminder(im(c, 1), *r[c.d[1]]);
            else if (c.form == "M") r[c.d[1]]->modAssignAndQuotient(v(c, 1), *r[d]);
            else if (c.form == "Mi") r[c.d[1]]->modAssignAndQuotient(im(c, 1), *r[d]);
            else if (c.form == "S") BigIntegerImpl::div(*r[d], *r[c.d[1]], v(c, 0), v(c, 1));
            else if (c.form == "Si") BigIntegerImpl::div(*r[d], *r[c.d[1]], v(c, 0), im(c, 1));
            else return false;
            moved[d] = moved[c.d[1]] = false;
            return true;
        }
        if (op == "shl") { r[d]->shiftLeftAssign((uint64_t)c.n); return true; }
        if (op == "shr") { r[d]->shiftRightAssign((uint64_t)c.n); return true; }
        if (op == "shlz") { r[d]->shiftLeftAssign(parseHexU(c.i[0])); return true; }
        if (op == "shrz") { r[d]->shiftRightAssign(parseHexU(c.i[0])); return true; }
        if (op == "blockz") { o.str(hexU(v(c, 0).getU32((SizeType)parseHexU(c.i[0])))); return true; }
        if (op == "neg") { r[d]->negate(); return true; }
        if (op == "abs") { r[d]->abs(); return true; }
        if (op == "not") { r[d]->notSelf(); return true; }
        if (op == "notbits") { r[d]->notBits(); return true; }
        if (op == "inc") { r[d]->inc(); return true; }
        if (op == "dec") { r[d]->dec(); return true; }
        if (op == "block") { o.str(hexU(v(c, 0).getU32((SizeType)c.n))); return true; }
        if (op == "cmp3") { return c.form == "BB" ? sgn3(o, v(c, 0).cmp(v(c, 1))) : c.form == "Bi" ? sgn3(o, v(c, 0).cmp(im(c, 1))) : sgn3(o, BigIntegerImpl(im(c, 0)).cmp(v(c, 1))); }
        if (op == "preds") { auto & a = v(c, 0); o.b(a.isZero()); o.b(a.isOne()); o.b(a.isNegOne()); o.b(a.flagsContains(BNFlag::POSITIVE)); o.b(a.flagsContains(BNFlag::NEGATIVE)); o.b(a.isEven()); o.b(a.isOdd()); return true; }
        if (op == "counts") { auto & a = v(c, 0); auto [q, w] = a.getMagBitCount(); o.i((long)a.getMagU32Count()); o.i((long)(q + w * 32)); return true; }
        if (op == "print") { o.str(v(c, 0).toString((int)c.n)); return true; }
        if (op == "parse") { bool ok = c.form == "t"; r[d]->fromString(Part(c.t), (int)c.n, &ok); moved[d] = false; o.b(ok); return true; }
        if (op == "parsenew") { bool ok = c.form == "t"; r[d].reset(new BigIntegerImpl((StringArg)Part(c.t), (int)c.n, &ok)); moved[d] = false; o.b(ok); return true; }
        if (op == "trunc" && c.form == "ull") { o.str(hexU(v(c, 0).toU64())); return true; }
        if (op == "ofi64") { int64_t x = im(c, 0); if (c.form == "new") r[d].reset(new BigIntegerImpl(x)); else r[d]->assign(x); moved[d] = false; return true; }
        if (op == "ofbin") { if (c.form == "as") r[d]->assign(c.t.data(), c.t.size(), c.n != 0); else r[d].reset(new BigIntegerImpl(c.t.data(), c.t.size(), c.n != 0)); moved[d] = false; return true; }
        if (op == "ofwords") { // magnitude words given explicitly, possibly with leading zero words; n = sign
            vector<uint32_t> w; for (size_t j = 0; j + 3 < c.t.size(); j += 4) { uint32_t x; memcpy(&x, c.t.data() + j, 4); w.push_back(x); }
            auto p = std::make_shared<vector<uint32_t>>(1, 0xdeadbeef); p->insert(p->end(), w.begin(), w.end()); p->push_back(0xdeadbeef);
            r[d].reset(new BigIntegerImpl(Slice<uint32_t>(p, 1, 1 + w.size()), (int)c.n)); moved[d] = false; return true; }
        if (op == "tomag" || op == "tomagz") { // z: a limit far beyond the number
            size_t lim = op == "tomag" ? (size_t)c.n : (size_t)parseHexU(c.i[0]), m = std::min(lim, sizeof g_buf); vector<unsigned char> b(m + 64, 0xa5); size_t k = v(c, 0).copyMagDataTo(b.data() + 32, lim);
            bool g = k <= m; for (size_t j = 0; j < b.size(); ++j) if ((j < 32 || j >= 32 + std::min(k, m)) && b[j] != 0xa5) g = false;
            o.str(hexOf(b.data() + 32, std::min(k, m))); o.i((long)k); o.b(g); return true; }
        if (op == "copy") { if (c.form == "new") r[d].reset(new BigIntegerImpl(v(c, 0))); else if (c.form == "as") r[d]->assign(v(c, 0)); else *r[d] = v(c, 0); moved[d] = false; return true; }
        if (op == "move") { int s = c.s[0]; if (c.form == "new") r[d].reset(new BigIntegerImpl(std::move(*r[s]))); else if (c.form == "as") r[d]->assign(std::move(*r[s])); else *r[d] = std::move(*r[s]); moved[d] = false; if (d != s) moved[s] = true; return true; }
        if (op == "swap") { if (c.form == "f") swap(*r[c.d[0]], *r[c.d[1]]); else r[c.d[0]]->swap(*r[c.d[1]]); std::swap(moved[c.d[0]], moved[c.d[1]]); return true; }
        if (op == "zero") { r[d].reset(new BigIntegerImpl); moved[d] = false; return true; }
        return false;
    }
};

// --------------------------------------------------------------- C interface
struct MC : Machine {
    pgbn_BigInteger_t * r[NR];
    vector<std::pair<pgbn_String_t *, string>> strs;     // strings returned earlier and what they said
#ifdef NO_MAIN // several threads
    void keep(pgbn_String_t * s, const string & t) { pgbn_String_Destroy(s); }
#else
    void keep(pgbn_String_t * s, const string & t) { strs.emplace_back(s, t); }
#endif
    MC() { for (auto & x : r) x = pgbn_BigInteger_Create(); }
    ~MC() { for (auto & x : r) pgbn_BigInteger_Destroy(x); for (auto & s : strs) pgbn_String_Destroy(s.first); }
    string value(int k) override {
        size_t n = pgbn_BigInteger_IsZero(r[k]) ? 0 : pgbn_BigInteger_GetMagData(r[k], g_buf, sizeof g_buf);
        return numeral(pgbn_BigInteger_IsNegative(r[k]), g_buf, n);
    }
    bool canonical(int k) override {
        size_t n = pgbn_BigInteger_IsZero(r[k]) ? 0 : pgbn_BigInteger_GetMagData(r[k], g_buf, sizeof g_buf - 1);
        g_buf[n] = 0;
        auto * f = pgbn_BigInteger_CreateWithBin(n + 1, g_buf, true);
        if (pgbn_BigInteger_IsNegative(r[k])) pgbn_BigInteger_Negate(f);
        bool ok = pgbn_BigInteger_Cmp(r[k], f) == 0 && pgbn_BigInteger_Cmp(f, r[k]) == 0;
        pgbn_BigInteger_Destroy(f);
        return ok;
    }
    pgbn_BigInteger_t * v(const Cmd & c, int k) { return r[c.s[k]]; }
    int64_t im(const Cmd & c, int k) { return parseHexI(c.i[-c.s[k] - 1]); }
    void put(int d, pgbn_BigInteger_t * x) { pgbn_BigInteger_Destroy(r[d]); r[d] = x; }
    bool exec(const Cmd & c, Outs & o) override {
        const string & op = c.op; int d = c.d.empty() ? -1 : c.d[0];
#define ASG(NAME, FN) if (op == NAME) { if (c.form == "A") pgbn_BigInteger_##FN##Assign(r[d], v(c, 1)); else if (c.form == "Ai") pgbn_BigInteger_##FN##AssignWithI64(r[d], im(c, 1)); else return false; return true; }
        ASG("add", Add) ASG("sub", Sub) ASG("mul", Mul) ASG("div", Div) ASG("mod", Mod) ASG("and", And) ASG("or", Or) ASG("xor", Xor)
#undef ASG
        if (op == "shl") { pgbn_BigInteger_SHLAssignWithI64(r[d], c.n); return true; }
        if (op == "shr") { pgbn_BigInteger_SHRAssignWithI64(r[d], c.n); return true; }
        if (op == "shlz") { pgbn_BigInteger_SHLAssignWithI64(r[d], (int64_t)parseHexU(c.i[0])); return true; }
        if (op == "shrz") { pgbn_BigInteger_SHRAssignWithI64(r[d], (int64_t)parseHexU(c.i[0])); return true; }
        if (op == "blockz") { o.str(hexU(pgbn_BigInteger_Get2sComplementBlock(v(c, 0), (size_t)parseHexU(c.i[0])))); return true; }
        if (op == "neg") { pgbn_BigInteger_Negate(r[d]); return true; }
        if (op == "abs") { pgbn_BigInteger_AbsSelf(r[d]); return true; }
        if (op == "not") { pgbn_BigInteger_NotSelf(r[d]); return true; }
        if (op == "notbits") { pgbn_BigInteger_NotSelfBits(r[d]); return true; }
        if (op == "inc") { pgbn_BigInteger_Inc(r[d]); return true; }
        if (op == "dec") { pgbn_BigInteger_Dec(r[d]); return true; }
        if (op == "block") { o.str(hexU(pgbn_BigInteger_Get2sComplementBlock(v(c, 0), (size_t)c.n))); return true; }
        if (op == "cmp3") { return c.form == "BB" ? sgn3(o, pgbn_BigInteger_Cmp(v(c, 0), v(c, 1))) : c.form == "Bi" ? sgn3(o, pgbn_BigInteger_CmpWithI64(v(c, 0), im(c, 1))) : false; }
        if (op == "preds") { auto * a = v(c, 0); o.b(pgbn_BigInteger_IsZero(a)); o.b(pgbn_BigInteger_IsOne(a)); o.b(pgbn_BigInteger_IsNegOne(a)); o.b(pgbn_BigInteger_IsPositive(a)); o.b(pgbn_BigInteger_IsNegative(a)); o.b(pgbn_BigInteger_IsEven(a)); o.b(pgbn_BigInteger_IsOdd(a)); return true; }
        if (op == "print") { auto * s = pgbn_BigInteger_ToString(v(c, 0), (int)c.n); string t(pgbn_String_CStr(s)); if (pgbn_String_Length(s) != t.size()) t += "?"; o.str(t); keep(s, t); return true; }
        if (op == "strcheck") { bool ok = true; for (auto & s : strs) { if (s.second != pgbn_String_CStr(s.first) || pgbn_String_Length(s.first) != s.second.size()) ok = false; pgbn_String_Destroy(s.first); } strs.clear(); o.b(ok); return true; }
        if (op == "strnew") { auto * s = pgbn_String_Create(c.t.c_str()); string t(pgbn_String_CStr(s)); o.str(t); o.i((long)pgbn_String_Length(s)); keep(s, t); return true; }
        if (op == "parse") { o.b(pgbn_BigInteger_AssignWithStr(r[d], c.t.c_str(), (int)c.n)); return true; }
        if (op == "parsec") { auto * x = pgbn_BigInteger_CreateWithStr(c.t.c_str(), (int)c.n); o.b(x != nullptr); if (x) put(d, x); return true; }
        if (op == "toi64") { bool ok = c.form == "t"; int64_t x; if (c.form == "0") { x = pgbn_BigInteger_GetInt64(v(c, 0)); ok = g_err.empty(); } else x = pgbn_BigInteger_GetInt64WithChecking(v(c, 0), &ok); o.b(ok); o.str(hexI(x)); return true; }
        if (op == "tou64") { bool ok = c.form == "t"; uint64_t x; if (c.form == "0") { x = pgbn_BigInteger_GetUInt64(v(c, 0)); ok = g_err.empty(); } else x = pgbn_BigInteger_GetUInt64WithChecking(v(c, 0), &ok); o.b(ok); o.str(hexU(x)); return true; }
        if (op == "ofi64") { if (c.form == "new") put(d, pgbn_BigInteger_CreateWithI64(im(c, 0))); else pgbn_BigInteger_AssignWithI64(r[d], im(c, 0)); return true; }
        if (op == "ofbin") { if (c.form == "as") pgbn_BigInteger_AssignWithBin(r[d], c.t.data(), c.t.size(), c.n != 0); else put(d, pgbn_BigInteger_CreateWithBin(c.t.size(), c.t.data(), c.n != 0)); return true; }
        if (op == "tomag" || op == "tomagz") { // z: a limit far beyond the number
            size_t lim = op == "tomag" ? (size_t)c.n : (size_t)parseHexU(c.i[0]), m = std::min(lim, sizeof g_buf); vector<unsigned char> b(m + 64, 0xa5); size_t k = pgbn_BigInteger_GetMagData(v(c, 0), b.data() + 32, lim);
            bool g = k <= m; for (size_t j = 0; j < b.size(); ++j) if ((j < 32 || j >= 32 + std::min(k, m)) && b[j] != 0xa5) g = false;
            o.str(hexOf(b.data() + 32, std::min(k, m))); o.i((long)k); o.b(g); return true; }
        if (op == "copy") { if (c.form == "new") put(d, pgbn_BigInteger_CreateWithCopying(v(c, 0))); else pgbn_BigInteger_Copy(r[d], v(c, 0)); return true; }
        if (op == "zero") { put(d, pgbn_BigInteger_Create()); return true; }
        return false;
    }
};

static void registerAll() {
    for (unsigned code = 0; code <= 16; ++code) Status::registe(code, "code " + std::to_string(code), onErr, code);
}
static string list(const vector<int> & v) { string r = "["; for (size_t k = 0; k < v.size(); ++k) r += (k ? "," : "") + std::to_string(v[k]); return r + "]"; }

#ifndef NO_MAIN
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    vector<string> lines; { std::ifstream f(argv[1]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') lines.push_back(l); }
    string outName = argv[2];
    fclose(fopen(argv[2], "w"));
    Shared * sh = makeShared();
    auto segment = [&](int64_t from) {
        FILE * out = fopen(argv[2], "a");
        static char big[1 << 20]; setvbuf(out, big, _IOFBF, sizeof big);
        registerAll();
        std::unique_ptr<Machine> m; string last[NR]; bool unseen = false;
        for (size_t ln = (size_t)from; ln < lines.size(); ++ln) {
            Cmd c = parseCmd(lines[ln]);
            if (c.op == "reset") {
                fflush(out);
                m.reset(); unseen = false;
                if (c.form == "B") m.reset(new MB); else if (c.form == "I") m.reset(new MI); else m.reset(new MC);
                for (int k = 0; k < NR; ++k) last[k] = m->dump(k);
                fprintf(out, "{\"ln\":%zu,\"op\":\"reset\",\"f\":\"%s\",\"chg\":[", ln + 1, c.form.c_str());
                for (int k = 0; k < NR; ++k) fprintf(out, "%s[%d,%s]", k ? "," : "", k, jstr(last[k]).c_str());
                fprintf(out, "]}\n");
                continue;
            }
            fflush(out);
            sh->line = (int64_t)ln; sh->progress = sh->progress + 1;
            g_err.clear();
            Outs o;
            bool quiet = c.op.back() == '~';          // do not look at the objects after this operation
            if (quiet) c.op.pop_back();
            const string given = c.t;
            bool ok = c.op == "obs" || m->exec(c, o);
            if (c.t != given) o.str("the input was changed");
            vector<unsigned> err = g_err;
            if (!ok) { fprintf(stderr, "no such operation: %s\n", lines[ln].c_str()); fflush(out); _exit(97); }
            string chg, can, es;
            if (!quiet) for (int k = 0; k < NR; ++k) {
                string d = m->dump(k);
                if (d == last[k] && !unseen) { bool isDst = false; for (int x : c.d) isDst |= x == k; if (!isDst) continue; }
                else chg += (chg.empty() ? "[" : ",[") + std::to_string(k) + "," + jstr(d) + "]";
                last[k] = d;
                if (d != "M" && !m->canonical(k)) can += (can.empty() ? "" : ",") + std::to_string(k);
            }
            unseen = quiet;
            for (unsigned e : err) es += (es.empty() ? "" : ",") + std::to_string(e);
            string is; for (auto & x : c.i) is += (is.empty() ? "" : ",") + jstr(x);
            fprintf(out, "{\"ln\":%zu,\"q\":%s,\"op\":\"%s\",\"f\":\"%s\",\"d\":%s,\"s\":%s,\"n\":%ld,\"i\":[%s],\"t\":%s,\"o\":[%s],\"chg\":[%s],\"can\":[%s],\"err\":[%s]}\n", ln + 1, quiet ? "true" : "false", c.op.c_str(), c.form.c_str(),
                list(c.d).c_str(), list(c.s).c_str(), c.n, is.c_str(), (c.op == "ofbin" || c.op == "ofwords" ? jstr(hexOf((const unsigned char *)c.t.data(), c.t.size())) : jstr(c.t)).c_str(), o.s.c_str(), chg.c_str(), can.c_str(), es.c_str());
        }
        sh->line = (int64_t)lines.size();
        fflush(out);
        m.reset();
        fclose(out);
    };
    int deaths = 0, hangs = 0;
    auto onDeath = [&](int64_t ln, const string & how) -> int64_t {
        if (how == "exit 97") { exit(3); }
        FILE * out = fopen(argv[2], "a");
        string op = ln < (int64_t)lines.size() ? parseCmd(lines[ln]).op : "end";
        if (op.back() == '~') op.pop_back();
        fprintf(out, "{\"ln\":%lld,\"op\":\"crash\",\"what\":\"%s\",\"how\":\"%s\"}\n", (long long)ln + 1, op.c_str(), how.c_str());
        fclose(out);
        ++deaths; hangs += how == "hang";
        if (deaths > 40 || hangs > 2) return -1;
        for (++ln; ln < (int64_t)lines.size(); ++ln) if (lines[ln].compare(0, 5, "reset") == 0) return ln;
        return -1;
    };
    supervise(sh, 0, 20, segment, onDeath);
    return 0;
}
#endif
