------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* The library's number objects as a register machine over the unbounded   *)
(* integers.                                                               *)
(*                                                                         *)
(*   reg[k]  value of object k: a canonical hexadecimal numeral (module Z), *)
(*           or "M" for an object that has been moved from;                *)
(*   out     what the last operation returned;                             *)
(*   err     the error codes the last operation signalled, in order.       *)
(*                                                                         *)
(* An operation has destinations d (objects it writes), sources s (objects *)
(* it reads; -j stands for the immediate i[j]), a small integer n and a     *)
(* text t.  Everything an operation may do is given by Sem: the values the  *)
(* destinations get, what is returned, the errors signalled.  No object     *)
(* that is not a destination changes: copies share storage inside the       *)
(* library, and nothing of that may be observable.  The same semantics      *)
(* holds for all overloads, for compound assignment (destination = first    *)
(* source), for every aliasing of destinations and sources, and in the      *)
(* three layers of the interface (BigInteger, BigIntegerImpl, C).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Z

CONSTANT Regs
VARIABLES reg, out, err
vars == <<reg, out, err>>

-----------------------------------------------------------------------------
\* error codes
DIVBY0 == 1  RADIX == 2  EMPTY == 3  SIGN == 4  NOTNUM == 5  OVERFLOW == 6

MaxI64 == "7fffffffffffffff"
MinI64 == "-8000000000000000"
MaxU64 == "ffffffffffffffff"

R(w, o) == [w |-> w, o |-> o, e |-> <<>>, free |-> FALSE]
RE(w, o, e) == [w |-> w, o |-> o, e |-> e, free |-> FALSE]
\* the destinations get unspecified values (division by zero)
Free(e) == [w |-> <<>>, o |-> <<>>, e |-> e, free |-> TRUE]

Sgn(x) == ZCmp(x, "0")
InRange(x, lo, hi) == ZCmp(lo, x) <= 0 /\ ZCmp(x, hi) <= 0
IsSign(c) == c = "+" \/ c = "-"

\* what parsing the text t in radix n does: <<ok, value or "", error code>>
ParseResult(t, n) ==
  LET cs == Chars(t) IN
  IF n < 2 \/ n > 36 THEN <<FALSE, "", RADIX>>
  ELSE IF Len(cs) = 0 THEN <<FALSE, "", EMPTY>>
  ELSE IF \E k \in 2..Len(cs) : IsSign(cs[k]) THEN <<FALSE, "", SIGN>>
  ELSE IF Len(cs) = 1 /\ IsSign(cs[1]) THEN <<FALSE, "", EMPTY>>
  ELSE LET v == ZParse(t, n) IN IF v = "" THEN <<FALSE, "", NOTNUM>> ELSE <<TRUE, v, 0>>

\* widths and signedness of the target types of truncating conversions
TypeOf(f) == CASE f = "c" -> <<8, TRUE>>  [] f = "uc" -> <<8, FALSE>>  [] f = "s" -> <<16, TRUE>> [] f = "us" -> <<16, FALSE>>
               [] f = "i" -> <<32, TRUE>> [] f = "ui" -> <<32, FALSE>> [] f = "l" -> <<64, TRUE>> [] f = "ul" -> <<64, FALSE>>
               [] f = "ll" -> <<64, TRUE>> [] f = "ull" -> <<64, FALSE>>

\* all the bits of x lie below bit c; the bits above are all equal to the sign
Beyond(c, x) == ZCmp(c, ZOfInt(ZBitLen(x))) > 0
Sign(x) == IF Sgn(x) < 0 THEN "-1" ELSE "0"

\* v: values of the sources; old: value of the first destination before
Sem(op, f, v, n, t, old) ==
  CASE op = "add" -> R(<<ZAdd(v[1], v[2])>>, <<>>)
    [] op = "sub" -> R(<<ZSub(v[1], v[2])>>, <<>>)
    [] op = "mul" -> R(<<ZMul(v[1], v[2])>>, <<>>)
    [] op = "neg" -> R(<<ZNeg(v[1])>>, <<>>)
    [] op = "abs" -> R(<<ZAbs(v[1])>>, <<>>)
    [] op = "pos" -> R(<<v[1]>>, <<>>)
    [] op = "inc" -> R(<<ZAdd(v[1], "1")>>, <<>>)
    [] op = "dec" -> R(<<ZSub(v[1], "1")>>, <<>>)
    [] op = "postinc" -> R(<<v[1], ZAdd(v[1], "1")>>, <<>>)
    [] op = "postdec" -> R(<<v[1], ZSub(v[1], "1")>>, <<>>)
    [] op = "div" -> IF v[2] = "0" THEN Free(<<DIVBY0>>) ELSE R(<<ZQuo(v[1], v[2])>>, <<>>)
    [] op = "mod" -> IF v[2] = "0" THEN Free(<<DIVBY0>>) ELSE R(<<ZRem(v[1], v[2])>>, <<>>)
    [] op = "divrem" -> IF v[2] = "0" THEN Free(<<DIVBY0>>) ELSE R(<<ZQuo(v[1], v[2]), ZRem(v[1], v[2])>>, <<>>)
    [] op = "gcd" -> R(<<ZGcd(v[1], v[2])>>, <<>>)
    [] op = "and" -> R(<<ZAnd(v[1], v[2])>>, <<>>)
    [] op = "or" -> R(<<ZOr(v[1], v[2])>>, <<>>)
    [] op = "xor" -> R(<<ZXor(v[1], v[2])>>, <<>>)
    [] op = "not" -> R(<<ZNot(v[1])>>, <<>>)
    [] op = "notbits" -> R(<<ZNotBits(v[1])>>, <<>>)
    [] op = "block" -> R(<<>>, <<ZWord(v[1], n)>>)
    [] op = "shl" -> R(<<ZShl(v[1], n)>>, <<>>)
    [] op = "shr" -> R(<<ZShr(v[1], n)>>, <<>>)
    \* shift counts, block numbers and limits (v[2]) that may exceed TLC's integers
    [] op = "shlz" -> R(<<IF v[1] = "0" THEN "0" ELSE ZShl(v[1], ZToInt(v[2]))>>, <<>>)
    [] op = "shrz" -> R(<<IF Beyond(v[2], v[1]) THEN Sign(v[1]) ELSE ZShr(v[1], ZToInt(v[2]))>>, <<>>)
    [] op = "blockz" -> R(<<>>, <<IF Beyond(v[2], v[1]) THEN ZLow(Sign(v[1]), 32, FALSE) ELSE ZWord(v[1], ZToInt(v[2]))>>)
    [] op = "tomagz" -> LET b == ZMagBytes(v[1], IF Beyond(v[2], v[1]) THEN ZBitLen(v[1]) ELSE ZToInt(v[2])) IN R(<<>>, <<b, StrLen(b) \div 2, TRUE>>)
    [] op = "cmp3" -> R(<<>>, <<ZCmp(v[1], v[2])>>)
    [] op = "cmp" -> LET c == ZCmp(v[1], v[2]) IN R(<<>>, <<c, c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>)
    [] op = "preds" -> LET odd == ZWord(v[1], 0) # "0" /\ ZLow(v[1], 1, FALSE) = "1"
                       IN R(<<>>, <<v[1] = "0", v[1] = "1", v[1] = "-1", Sgn(v[1]) > 0, Sgn(v[1]) < 0, ~odd, odd>>)
    [] op = "counts" -> LET b == ZBitLen(v[1]) IN R(<<>>, <<(b + 31) \div 32, b>>)
    [] op = "print" -> R(<<>>, <<ZFormat(v[1], n)>>)
    [] op = "parse" -> LET p == ParseResult(t, n) IN IF p[1] THEN R(<<p[2]>>, <<TRUE>>) ELSE RE(<<old>>, <<FALSE>>, <<p[3]>>)
    [] op = "parsenew" -> LET p == ParseResult(t, n) IN IF p[1] THEN R(<<p[2]>>, <<TRUE>>) ELSE RE(<<"0">>, <<FALSE>>, <<p[3]>>)
    [] op = "parsec" -> LET p == ParseResult(t, n) IN IF p[1] THEN R(<<p[2]>>, <<TRUE>>) ELSE RE(<<old>>, <<FALSE>>, <<p[3]>>)
    [] op = "toi64" -> IF InRange(v[1], MinI64, MaxI64) THEN R(<<>>, <<TRUE, v[1]>>) ELSE RE(<<>>, <<FALSE, MaxI64>>, <<OVERFLOW>>)
    [] op = "tou64" -> IF InRange(v[1], "0", MaxU64) THEN R(<<>>, <<TRUE, v[1]>>) ELSE RE(<<>>, <<FALSE, MaxU64>>, <<OVERFLOW>>)
    [] op = "trunc" -> R(<<>>, <<ZLow(v[1], TypeOf(f)[1], TypeOf(f)[2])>>)
    [] op = "asbool" -> R(<<>>, <<v[1] # "0">>)
    [] op = "ofi64" -> R(<<v[1]>>, <<>>)
    [] op = "ofbin" -> R(<<ZOfBytes(t, n # 0)>>, <<>>)
    [] op = "ofwords" -> LET m == ZOfBytes(t \o "00", TRUE) IN R(<<IF n < 0 THEN ZNeg(m) ELSE IF n = 0 THEN "0" ELSE m>>, <<>>)
    [] op = "tomag" -> LET b == ZMagBytes(v[1], n) IN R(<<>>, <<b, StrLen(b) \div 2, TRUE>>)
    [] op = "copy" -> R(<<v[1]>>, <<>>)
    [] op = "move" -> R(<<v[1], "M">>, <<>>)
    [] op = "swap" -> R(<<v[2], v[1]>>, <<>>)
    [] op = "zero" -> R(<<"0">>, <<>>)
    [] op = "obs" -> R(<<>>, <<>>)
    [] op = "strcheck" -> R(<<>>, <<TRUE>>)
    [] op = "strnew" -> R(<<>>, <<t, StrLen(t)>>)

\* operations that may be applied to a moved-from destination / that need valid sources
Assigns(op) == op \in {"parse", "parsenew", "parsec", "ofi64", "ofbin", "ofwords", "copy", "move", "zero", "swap"}

-----------------------------------------------------------------------------
Init == reg = [k \in Regs |-> "0"] /\ out = <<>> /\ err = <<>>

\* fv: the values the destinations get where the semantics leaves them open
Do(op, f, d, s, n, i, t, fv) ==
  LET v == [k \in 1..Len(s) |-> IF s[k] < 0 THEN i[-s[k]] ELSE reg[s[k]]]
      r == Sem(op, f, v, n, t, IF Len(d) > 0 THEN reg[d[1]] ELSE "")
      w == IF r.free THEN fv ELSE r.w
  IN /\ \A k \in 1..Len(s) : op = "swap" \/ v[k] # "M"
     /\ reg' = [k \in Regs |-> IF \E j \in 1..Len(d) : d[j] = k THEN w[CHOOSE j \in 1..Len(d) : d[j] = k] ELSE reg[k]]
     /\ out' = r.o
     /\ err' = r.e

TypeOK == \A k \in Regs : reg[k] = "M" \/ ZIsCanonical(reg[k])
=============================================================================
