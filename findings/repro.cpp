// One small demonstration per genuine defect found in PGBigNumber at the pinned commit.
// Each case runs in a forked child with a 5 s limit: "ok" = behaves as the property says.
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "errInfos.h"
#include "expr.h"
#include "algorithm.h"
#include "Fraction.h"
#include "infixExpr/SymbolTable.h"
#include "../c/src/pgbn.h"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <cstring>
#include <cstdio>
#include <thread>
using namespace pgbn; using namespace pgbn::expr; using pgbn::experimental::Fraction;
using I = BigIntegerImpl;
static int nfail = 0;
template <class F> void tc(const char *id, const char *what, F f) {
    fflush(stdout);
    pid_t p = fork();
    if (!p) { freopen("/dev/null", "w", stderr); freopen("/dev/null","w",stdout); alarm(5); bool r = f(); _exit(r ? 0 : 3); }
    int st; waitpid(p, &st, 0);
    const char *v = WIFSIGNALED(st) ? (WTERMSIG(st)==SIGALRM ? "HANG" : strsignal(WTERMSIG(st))) : WEXITSTATUS(st)==0 ? "ok" : WEXITSTATUS(st)==3 ? "WRONG" : "EXIT";
    if (strcmp(v,"ok")) nfail++;
    printf("%-4s %-10s %s\n", id, v, what);
}
static Enum lastStatusInfoIs(const char *s) { return Status::getInstance()->getInfo() == s; }
int main() {
    tc("F1","BigInteger(4294967295)==BigInteger(\"4294967295\")", []{ return BigInteger(4294967295LL)==BigInteger("4294967295"); });
    tc("F1b","big / 4294967295 terminates", []{ return (BigInteger("123456789012345678901234567890")/4294967295LL).toString()=="28744523655877030118"; });
    tc("F2","fromString(\"0\") sets ok", []{ bool ok=false; BigInteger x; x.assign("0",10,&ok); return ok && x.isZero(); });
    tc("F3","fromString(\"12a\") rejected", []{ bool ok=true; BigInteger x(7); x.assign("12a",10,&ok); return !ok && x==7; });
    tc("F4","stale words: x=2^40; x>>=20; x|=0", []{ BigInteger x(1); x<<=40; x>>=20; x|=0; return x==(1<<20); });
    tc("F4b","stale words: x=10^13; x=5; ~x", []{ BigInteger x("10000000000000"); x=5; x.notSelf(); return x==-6; });
    tc("F5","notBits strips leading zeros", []{ BigInteger x("8589934591"); x.notBits(); return x.isZero() && x==0; });
    tc("F6","fromBinary negative power of two", []{ unsigned char b[]={0,0xff}; BigInteger x; x.fromBinary(b,2,true); return x==-256; });
    tc("F7","int64 > BigInteger", []{ return (5 > BigInteger(3)) && !(3 > BigInteger(5)); });
    tc("F8","C GetUInt64WithChecking", []{ auto*b=pgbn_BigInteger_CreateWithI64(42); bool ok=false; auto v=pgbn_BigInteger_GetUInt64WithChecking(b,&ok); return ok&&v==42; });
    tc("F9","eval comparison operators", []{ return eval("2 > 1")==1 && eval("1 > 2")==0 && eval("2 >= 2")==1 && eval("2 <= 2")==1; });
    tc("F10","eval chained ==", []{ return eval("1 == 1 == 0")==0 && eval("3 != 2 == 1")==1; });
    tc("F11","eval %", []{ return eval("17 % 5")==2; });
    tc("F12","eval x**0", []{ return eval("7 ** 0")==1; });
    tc("F13","eval trailing blank", []{ return eval("1 + 2 ")==3; });
    tc("F14","eval fraction literal", []{ return eval("12.5+1")==13 && eval("2.25*4")==8; });
    tc("F14b","bad literal \"2 + 09\"", []{ eval("2 + 09"); return true; });
    tc("F14c","upper-case digits 0xFF", []{ return eval("0xFF")==255 && eval("0xfF")==255; });
    for (auto s : {"1+","()","","sum(1,","(1","1 2","1+2)","*3","1 ? 2","$"})
        tc("F15", s, [s]{ int seen=0; Status::getInstance(); for (Enum e=1;e<17;e++) if (e!=1) Status::registe(e,"ERR"); auto v=eval(s); return v.isZero() && lastStatusInfoIs("ERR"); });
    tc("F16","eval of a string_view that is not NUL terminated", []{ std::string s="1+2+3"; return eval(StringArg(s.data(),3))==3; });
    tc("F17","built-in called with the wrong number of arguments", []{
        infixExpr::SymbolTable::getInstance()->registe("two", infixExpr::SymbolTable::Symbol{infixExpr::Func{[](std::vector<infixExpr::Value> a)->infixExpr::Value{ infixExpr::Value r(a.at(0)); r.addAssign(a.at(1)); return r; }, 2}});
        auto v=eval("two(1)"); return v.isZero(); });
    tc("F18","user registration survives another thread", []{ static int hit=0; Status::getInstance(); Status::registe(ErrCode::DIVBY0,"mine",[]{hit++;}); std::thread t([]{ BigInteger(1)/BigInteger(0); }); t.join(); return hit==1; });
    tc("F18b","registration before first use", []{ Status::registe(2u,"mine"); Status::getInstance(); return Status::getInfo(2u)=="mine"; });
    tc("F18c","C peval user callback in C Status_Create first", []{ auto*s=pgbn_Status_Create(); return s!=nullptr; });
    tc("F19","peval of untaken division by zero", []{ return eval("1 ? 5 : 1/0")==5 && peval("1 ? 5 : 1/0", 2)==5; });
    tc("F20","Fraction(1,100).toDecimal", []{ return Fraction(BigInteger(1),BigInteger(100)).toDecimal(8)==".01000000" || Fraction(BigInteger(1),BigInteger(100)).toDecimal(8)=="0.01000000"; });
    tc("F20b","Fraction(-1,3).toDecimal", []{ return Fraction(BigInteger(-1),BigInteger(3)).toDecimal(3)=="-0.333"; });
    tc("F20c","Fraction(1,-3).toDecimal", []{ return Fraction(BigInteger(1),BigInteger(-3)).toDecimal(3)=="-0.333"; });
    tc("F20d","Fraction(0).reciprocal", []{ Status::getInstance(); static int hit=0; Status::registe(ErrCode::DIVBY0,"d",[]{hit++;}); bool ok=true; Fraction(BigInteger(0)).reciprocal(&ok); return !ok && hit==1; });
    tc("F20e","gcd(-4,6)", []{ return algo::gcd(BigInteger(-4),BigInteger(6))==2; });
    tc("F22","stale cache in quotient", []{ I q(I("18446744073709551616")); q.negate(); q.getU32(0); I r; I a("340282366920938463463374607431768211455"),b("-18446744073709551617"); I::div(q,r,a,b); return q.getU32(0)==1 && q.getU32(1)==0; });
    tc("F22b","Impl::mul aliasing (Karatsuba)", []{ I a(1); a.shiftLeftAssign(32*100); a.dec(); I b(a), c; I::mul(c,b,b); I::mul(a,a,b); return a.cmp(c)==0; });
    tc("F23","assign to a moved-from object", []{ BigInteger a(5); BigInteger b(std::move(a)); a=7; a.assign("8"); return a==8 && b==5; });
    printf("%d failing\n", nfail);
}
