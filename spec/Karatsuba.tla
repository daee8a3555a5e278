------------------------------ MODULE Karatsuba -------------------------------
(* The multiplication of long magnitudes as the library does it (mul,            *)
(* mulKaratsuba): words of W bits, split in halves when both operands have at    *)
(* least T words.  Checked on all pairs for small W and T, and on operands made  *)
(* of patterned quarters for the library's W = 32, T = 80; these are written     *)
(* down with the special cases that the recursion meets on them.                 *)
EXTENDS Z, Integers, Sequences, TLC, CSV, IOUtils
CONSTANTS W, T, Lens, Patterns, Top     \* Top > 0: all numbers below Top instead of patterns
VARIABLES a, b
NW(x) == (ZBitLen(x) + W - 1) \div W
Max(i, j) == IF i > j THEN i ELSE j
Low(x, h) == ZSub(x, ZShl(ZShr(x, W * h), W * h))
Short(x, y) == x = "0" \/ y = "0" \/ x = "1" \/ y = "1" \/ NW(x) < T \/ NW(y) < T
Parts(x, y) == LET h == (Max(NW(x), NW(y)) + 1) \div 2
                   xl == Low(x, h)  xh == ZShr(x, W * h)  yl == Low(y, h)  yh == ZShr(y, W * h)
               IN [h |-> h, xl |-> xl, xh |-> xh, yl |-> yl, yh |-> yh, xs |-> ZAdd(xl, xh), ys |-> ZAdd(yl, yh)]
RECURSIVE Prod(_, _)
Prod(x, y) == IF Short(x, y) THEN ZMul(x, y)
              ELSE LET p == Parts(x, y)
                       hh == Prod(p.xh, p.yh)  ll == Prod(p.xl, p.yl)
                       mm == ZSub(ZSub(Prod(p.xs, p.ys), hh), ll)
                   IN ZAdd(ZShl(ZAdd(ZShl(hh, W * p.h), mm), W * p.h), ll)
\* the middle term is no negative number; the operands of the three smaller products are shorter, so the recursion ends
RECURSIVE Good(_, _)
Good(x, y) == Short(x, y) \/ LET p == Parts(x, y)  l == Max(NW(x), NW(y)) IN
              /\ \A z \in {p.xl, p.xh, p.yl, p.yh} : NW(z) <= p.h
              /\ \A z \in {p.xl, p.xh, p.yl, p.yh, p.xs, p.ys} : NW(z) < l
              /\ ZCmp(ZMul(p.xs, p.ys), ZAdd(ZMul(p.xh, p.yh), ZMul(p.xl, p.yl))) >= 0
              /\ Good(p.xl, p.yl) /\ Good(p.xh, p.yh) /\ Good(p.xs, p.ys)
\* special cases met, as a text: z / u a factor 0 / 1, c a sum longer than its parts, s a low part with leading zero words, e the middle term 0, k nested
If(c, t) == IF c THEN t ELSE ""
RECURSIVE Path(_, _, _)
Path(x, y, d) == IF x = "0" \/ y = "0" THEN "z" ELSE IF x = "1" \/ y = "1" THEN "u" ELSE IF NW(x) < T \/ NW(y) < T THEN "."
              ELSE LET p == Parts(x, y) IN
                   If(d > 0, "k") \o If(NW(p.xs) > p.h \/ NW(p.ys) > p.h, "c") \o If(NW(p.xl) < p.h \/ NW(p.yl) < p.h, "s")
                   \o If(ZMul(p.xs, p.ys) = ZAdd(ZMul(p.xh, p.yh), ZMul(p.xl, p.yl)), "e")
                   \o "(" \o Path(p.xh, p.yh, d + 1) \o Path(p.xl, p.yl, d + 1) \o Path(p.xs, p.ys, d + 1) \o ")"
\* a number of n words in four parts, each filled with a pattern
Fill(pat, n) == IF pat = "0" THEN "0"
                ELSE IF pat = "1" THEN "1"
                ELSE IF pat = "f" THEN ZSub(ZPow("2", W * n), "1")
                ELSE IF pat = "t" THEN ZPow("2", W * n - 1)
                ELSE ZSub(ZPow("2", W * n), ZPow("2", W * (n - 1)))      \* "w": the top word full
Mk(n, ps) == LET k == Len(ps)  c(i) == (n * i) \div k IN
             LET F[i \in 0..k] == IF i = 0 THEN "0" ELSE ZAdd(F[i - 1], ZShl(Fill(ps[i], c(i) - c(i - 1)), W * c(i - 1))) IN F[k]
Shapes(k) == {ps \in [1..k -> Patterns] : ps[k] # "0"}
Left == IF Top > 0 THEN {ZOfInt(i) : i \in 0..(Top - 1)} ELSE {Mk(n, ps) : n \in Lens, ps \in Shapes(4)}
Right == IF Top > 0 THEN Left ELSE {Mk(n, ps) : n \in Lens, ps \in Shapes(2)}
Init == b \in Right /\ a = ""
Next == a = "" /\ a' \in Left /\ b' = b
Correct == a # "" => Prod(a, b) = ZMul(a, b) /\ Prod(b, a) = ZMul(a, b) /\ Good(a, b)
Out == IOEnv.OUT
Emit == a # "" /\ Top = 0 => CSVWrite("%1$s %2$s %3$s", <<a, b, Path(a, b, 0)>>, Out)
===============================================================================
