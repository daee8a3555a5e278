-------------------------------- MODULE DivGen --------------------------------
(* Dividends and divisors made of boundary words, in the library's base 2^32,    *)
(* written down with the path the long division of module Division takes on      *)
(* them: for each digit of the quotient                                          *)
(*   e: the first estimate was 2^32 or more        c: the estimate was corrected  *)
(*   b: and still too large: added back            0/m: the digit is 0 / 2^32 - 1 *)
EXTENDS Z, Integers, Sequences, TLC, CSV, IOUtils
CONSTANTS Words, MaxU, MaxV
VARIABLES u, v
Cat(w) == LET F[k \in 0..Len(w)] == IF k = 0 THEN "" ELSE F[k - 1] \o w[k] IN F[Len(w)]
Seqs(lo, hi) == {w \in UNION {[1..k -> Words] : k \in lo..hi} : w[1] # "00000000"}
Num(w) == ZOfBytes("00" \o Cat(w), FALSE)
Base == "100000000"
Max == "ffffffff"
Le(a, b) == ZCmp(a, b) <= 0
\* one digit: x the rest of the dividend (normalised), y the divisor of n words, j the position
Digit(x, y, n, j) ==
    LET two == ZShr(x, 32 * (j + n - 1))
        y1 == ZShr(y, 32 * (n - 1))
        e == ZQuo(two, y1)  r == ZRem(two, y1)
        high == e = Base \/ ~Le(ZMul(e, ZWord(y, n - 2)), ZAdd(ZShl(r, 32), ZWord(x, j + n - 2)))
        t == ZQuo(ZShr(x, 32 * j), y)
        h == IF high THEN ZSub(e, "1") ELSE e
    IN <<t, (IF Le(Base, e) THEN "e" ELSE "") \o (IF high THEN "c" ELSE "") \o (IF h # t THEN "b" ELSE "") \o (IF t = "0" THEN "0" ELSE IF t = Max THEN "m" ELSE "")>>
RECURSIVE Path(_, _, _, _)
Path(x, y, n, j) == IF j < 0 THEN "" ELSE LET g == Digit(x, y, n, j) IN g[2] \o "." \o Path(ZSub(x, ZShl(ZMul(g[1], y), 32 * j)), y, n, j - 1)
NW(a) == (ZBitLen(a) + 31) \div 32
\* the laws: the digits make up the quotient, the estimate needs at most one of each correction (h is t or t + 1)
RECURSIVE Quo(_, _, _, _)
Quo(x, y, n, j) == IF j < 0 THEN "0" ELSE LET g == Digit(x, y, n, j) IN ZAdd(ZShl(g[1], 32 * j), Quo(ZSub(x, ZShl(ZMul(g[1], y), 32 * j)), y, n, j - 1))
Sh(b) == 32 * NW(b) - ZBitLen(b)
Init == v \in {Num(w) : w \in Seqs(2, MaxV)} /\ u = "0"
Next == u = "0" /\ u' \in {Num(w) : w \in Seqs(2, MaxU)} /\ v' = v
Greater == u # "0" /\ ~Le(u, v)
ThePath == LET n == NW(v) s == Sh(v) IN Path(ZShl(u, s), ZShl(v, s), n, NW(u) - n)
Sound == Greater => LET n == NW(v) s == Sh(v) IN Quo(ZShl(u, s), ZShl(v, s), n, NW(u) - n) = ZQuo(u, v)
Out == IOEnv.OUT
Emit == Greater => CSVWrite("%1$s %2$s %3$s", <<u, v, ThePath>>, Out)
===============================================================================
