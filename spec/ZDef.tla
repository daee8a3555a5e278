-------------------------------- MODULE ZDef --------------------------------
(***************************************************************************)
(* Unbounded integers in plain TLA+.  TLC's own integers have 32 bits, so   *)
(* a value is written as its canonical signed lower-case hexadecimal        *)
(* numeral: "0", "1f", "-1f".  Internally an integer is a sign and a        *)
(* little-endian sequence of base-16 digits without leading zeros.          *)
(* Module Z has the same operators evaluated by java/Z.java; ZCheck has     *)
(* TLC compare the two.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL DigitChars == "0123456789abcdefghijklmnopqrstuvwxyz"
LOCAL UpperChars == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOCAL At(t, k) == SubSeq(t, k, k)
LOCAL DigitVal(c) == IF \E k \in 1..36 : At(DigitChars, k) = c \/ At(UpperChars, k) = c
                     THEN (CHOOSE k \in 1..36 : At(DigitChars, k) = c \/ At(UpperChars, k) = c) - 1
                     ELSE 99
LOCAL Max(a, b) == IF a > b THEN a ELSE b
LOCAL Min(a, b) == IF a < b THEN a ELSE b
LOCAL Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

-----------------------------------------------------------------------------
(* magnitudes *)
RECURSIVE Norm(_)
LOCAL Norm(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Norm(SubSeq(m, 1, Len(m) - 1))
LOCAL Dig(m, k) == IF k <= Len(m) THEN m[k] ELSE 0

RECURSIVE AddC(_, _, _, _, _)
LOCAL AddC(a, b, k, n, c) == IF k > n THEN IF c = 0 THEN <<>> ELSE <<c>>
                             ELSE LET t == Dig(a, k) + Dig(b, k) + c IN <<t % 16>> \o AddC(a, b, k + 1, n, t \div 16)
LOCAL AddM(a, b) == AddC(a, b, 1, Max(Len(a), Len(b)), 0)
RECURSIVE SubC(_, _, _, _)
LOCAL SubC(a, b, k, c) == IF k > Len(a) THEN <<>>
                          ELSE LET t == a[k] - Dig(b, k) - c IN <<t % 16>> \o SubC(a, b, k + 1, IF t < 0 THEN 1 ELSE 0)
LOCAL SubM(a, b) == Norm(SubC(a, b, 1, 0))          \* a >= b
RECURSIVE CmpC(_, _, _)
LOCAL CmpC(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpC(a, b, k - 1)
LOCAL CmpM(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpC(a, b, Len(a))
RECURSIVE MulD(_, _, _)
LOCAL MulD(a, d, c) == IF a = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % 16>> \o MulD(<<>>, d, c \div 16)
                       ELSE LET t == a[1] * d + c IN <<t % 16>> \o MulD(Tail(a), d, t \div 16)
RECURSIVE MulR(_, _)
LOCAL MulR(a, b) == IF b = <<>> THEN <<>> ELSE AddM(MulD(a, b[1], 0), <<0>> \o MulR(a, Tail(b)))
LOCAL MulM(a, b) == Norm(MulR(a, b))
\* schoolbook long division: <<quotient, remainder>>, most significant digit first
RECURSIVE QuoDigit(_, _, _)
LOCAL QuoDigit(r, b, d) == IF CmpM(r, b) < 0 THEN <<d, r>> ELSE QuoDigit(SubM(r, b), b, d + 1)
RECURSIVE DivR(_, _)
LOCAL DivR(a, b) == IF a = <<>> THEN <<<<>>, <<>>>>
                    ELSE LET h == DivR(Tail(a), b)  s == QuoDigit(Norm(<<a[1]>> \o h[2]), b, 0)
                         IN <<<<s[1]>> \o h[1], s[2]>>
LOCAL DivM(a, b) == LET h == DivR(a, b) IN <<Norm(h[1]), h[2]>>
\* number from digits in radix r, most significant first
RECURSIVE Horner(_, _, _, _)
LOCAL Horner(ds, r, k, acc) == IF k > Len(ds) THEN acc ELSE Horner(ds, r, k + 1, AddM(MulD(acc, r, 0), MulD(<<1>>, ds[k], 0)))
LOCAL OfDigits(ds, r) == Norm(Horner(ds, r, 1, <<>>))
RECURSIVE DigitsOf(_, _)                              \* least significant first
LOCAL DigitsOf(m, rm) == IF m = <<>> THEN <<>>
                         ELSE LET h == DivM(m, rm)  d == h[2]
                              IN <<IF d = <<>> THEN 0 ELSE d[1] + (IF Len(d) > 1 THEN 16 * d[2] ELSE 0)>> \o DigitsOf(h[1], rm)
LOCAL SmallM(n) == Norm(<<n % 16, (n \div 16) % 16, (n \div 256) % 16, (n \div 4096) % 16, (n \div 65536) % 16>>)

-----------------------------------------------------------------------------
(* signed integers: [n |-> negative?, m |-> magnitude] *)
LOCAL Mk(n, m) == [n |-> n /\ m # <<>>, m |-> m]
RECURSIVE StrOf(_)
LOCAL StrOf(ds) == IF ds = <<>> THEN "" ELSE At(DigitChars, ds[1] + 1) \o StrOf(Tail(ds))
LOCAL Enc(z) == (IF z.n THEN "-" ELSE "") \o (IF z.m = <<>> THEN "0" ELSE StrOf(Rev(z.m)))
LOCAL Dec(x) == LET neg == At(x, 1) = "-"
                    t == IF neg THEN SubSeq(x, 2, Len(x)) ELSE x
                IN Mk(neg, Norm([k \in 1..Len(t) |-> DigitVal(At(t, Len(t) + 1 - k))]))
LOCAL One == Mk(FALSE, <<1>>)
LOCAL NegI(a) == Mk(~a.n, a.m)
LOCAL AddI(a, b) == IF a.n = b.n THEN Mk(a.n, AddM(a.m, b.m))
                    ELSE IF CmpM(a.m, b.m) >= 0 THEN Mk(a.n, SubM(a.m, b.m)) ELSE Mk(b.n, SubM(b.m, a.m))
LOCAL MulI(a, b) == Mk(a.n # b.n, MulM(a.m, b.m))
LOCAL QuoI(a, b) == Mk(a.n # b.n, DivM(a.m, b.m)[1])     \* truncation
LOCAL RemI(a, b) == Mk(a.n, DivM(a.m, b.m)[2])
LOCAL FloorI(a, b) == LET h == DivM(a.m, b.m) IN         \* b > 0
                      IF ~a.n THEN Mk(FALSE, h[1]) ELSE IF h[2] = <<>> THEN Mk(TRUE, h[1]) ELSE Mk(TRUE, AddM(h[1], <<1>>))
LOCAL CmpI(a, b) == IF a.n /\ ~b.n THEN -1 ELSE IF ~a.n /\ b.n THEN 1 ELSE IF a.n THEN CmpM(b.m, a.m) ELSE CmpM(a.m, b.m)
\* n base-16 digits of the infinite two's complement representation, least significant first
LOCAL Twos(a, n) == IF ~a.n THEN [k \in 1..n |-> Dig(a.m, k)]
                    ELSE LET p == SubM(a.m, <<1>>) IN [k \in 1..n |-> 15 - Dig(p, k)]
LOCAL OfTwos(ds) == IF ds[Len(ds)] < 8 THEN Mk(FALSE, Norm(ds))
                    ELSE Mk(TRUE, AddM(Norm([k \in 1..Len(ds) |-> 15 - ds[k]]), <<1>>))
LOCAL Bit(d, k) == (d \div 2^k) % 2
LOCAL DigitOp(x, y, f(_, _)) == f(Bit(x, 0), Bit(y, 0)) + 2 * f(Bit(x, 1), Bit(y, 1)) + 4 * f(Bit(x, 2), Bit(y, 2)) + 8 * f(Bit(x, 3), Bit(y, 3))
LOCAL BitwiseI(a, b, f(_, _)) == LET n == Max(Len(a.m), Len(b.m)) + 1  s == Twos(a, n)  t == Twos(b, n)
                                 IN OfTwos([k \in 1..n |-> DigitOp(s[k], t[k], f)])
LOCAL Pow2M(n) == [k \in 1..(n \div 4) |-> 0] \o <<2^(n % 4)>>

-----------------------------------------------------------------------------
ZAdd(x, y) == Enc(AddI(Dec(x), Dec(y)))
ZSub(x, y) == Enc(AddI(Dec(x), NegI(Dec(y))))
ZMul(x, y) == Enc(MulI(Dec(x), Dec(y)))
ZQuo(x, y) == Enc(QuoI(Dec(x), Dec(y)))
ZRem(x, y) == Enc(RemI(Dec(x), Dec(y)))
ZAnd(x, y) == LET f(a, b) == IF a = 1 /\ b = 1 THEN 1 ELSE 0 IN Enc(BitwiseI(Dec(x), Dec(y), f))
ZOr(x, y)  == LET f(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE 0 IN Enc(BitwiseI(Dec(x), Dec(y), f))
ZXor(x, y) == LET f(a, b) == IF a # b THEN 1 ELSE 0 IN Enc(BitwiseI(Dec(x), Dec(y), f))
ZNeg(x) == Enc(NegI(Dec(x)))
ZNot(x) == Enc(LET a == Dec(x) n == Len(a.m) + 1 t == Twos(a, n) IN OfTwos([k \in 1..n |-> 15 - t[k]]))
ZAbs(x) == Enc(Mk(FALSE, Dec(x).m))
ZShl(x, n) == LET a == Dec(x) IN Enc(Mk(a.n, MulM(a.m, Pow2M(n))))
ZShr(x, n) == Enc(FloorI(Dec(x), Mk(FALSE, Pow2M(n))))
RECURSIVE ZPow(_, _)
ZPow(x, n) == IF n = 0 THEN "1" ELSE Enc(MulI(Dec(x), Dec(ZPow(x, n - 1))))
RECURSIVE GcdM(_, _)
LOCAL GcdM(a, b) == IF b = <<>> THEN a ELSE GcdM(b, DivM(a, b)[2])
ZGcd(x, y) == Enc(Mk(FALSE, GcdM(Dec(x).m, Dec(y).m)))
ZCmp(x, y) == CmpI(Dec(x), Dec(y))
RECURSIVE NatM(_)
LOCAL NatM(n) == IF n = 0 THEN <<>> ELSE <<n % 16>> \o NatM(n \div 16)
ZOfInt(n) == Enc(IF n < 0 THEN Mk(TRUE, NatM(-n)) ELSE Mk(FALSE, NatM(n)))
RECURSIVE NatOf(_)
LOCAL NatOf(m) == IF m = <<>> THEN 0 ELSE m[1] + 16 * NatOf(Tail(m))
ZToInt(x) == LET a == Dec(x) IN IF a.n THEN -NatOf(a.m) ELSE NatOf(a.m)
RECURSIVE FactM(_)
LOCAL FactM(n) == IF n <= 1 THEN <<1>> ELSE MulM(NatM(n), FactM(n - 1))
ZFact(x) == Enc(Mk(FALSE, FactM(ZToInt(x))))
LOCAL TopBits(d) == IF d >= 8 THEN 4 ELSE IF d >= 4 THEN 3 ELSE IF d >= 2 THEN 2 ELSE 1
ZBitLen(x) == LET m == Dec(x).m IN IF m = <<>> THEN 0 ELSE 4 * (Len(m) - 1) + TopBits(m[Len(m)])   \* of the magnitude
ZIsCanonical(x) == \/ x = "0"
                   \/ LET t == IF At(x, 1) = "-" THEN SubSeq(x, 2, Len(x)) ELSE x
                      IN Len(t) > 0 /\ At(t, 1) # "0" /\ \A k \in 1..Len(t) : \E j \in 1..16 : At(DigitChars, j) = At(t, k)
\* the number of the n lowest bits, read as two's complement (signed) or as a natural number
ZLow(x, n, signed) == LET low == AddI(Dec(x), NegI(MulI(FloorI(Dec(x), Mk(FALSE, Pow2M(n))), Mk(FALSE, Pow2M(n)))))
                      IN Enc(IF signed /\ CmpM(low.m, Pow2M(n - 1)) >= 0 THEN AddI(low, Mk(TRUE, Pow2M(n))) ELSE low)
\* 32-bit block k of the infinite two's complement representation
ZWord(x, k) == ZLow(ZShr(x, 32 * k), 32, FALSE)
\* every bit up to the highest one of the magnitude flipped, the sign kept
ZNotBits(x) == LET a == Dec(x) n == ZBitLen(x) IN Enc(Mk(a.n, SubM(SubM(Pow2M(n), <<1>>), a.m)))
\* numeral with optional sign -> value; "" if the text is no numeral in that radix
ZParse(t, radix) == LET sgn == Len(t) > 0 /\ At(t, 1) \in {"+", "-"}
                        u == IF sgn THEN SubSeq(t, 2, Len(t)) ELSE t
                        ds == [k \in 1..Len(u) |-> DigitVal(At(u, k))]
                    IN IF Len(u) = 0 \/ \E k \in 1..Len(u) : ds[k] >= radix THEN ""
                       ELSE Enc(Mk(sgn /\ At(t, 1) = "-", OfDigits(ds, radix)))
ZFormat(x, radix) == LET a == Dec(x) IN IF a.m = <<>> THEN "0" ELSE (IF a.n THEN "-" ELSE "") \o StrOf(Rev(DigitsOf(a.m, SmallM(radix))))
\* byte strings: two hexadecimal digits per byte
LOCAL ByteAt(h, k) == <<DigitVal(At(h, 2 * k)), DigitVal(At(h, 2 * k - 1))>>       \* base-16 digits of byte k, low one first
RECURSIVE CatBytes(_, _, _)
LOCAL CatBytes(h, k, little) == IF k > Len(h) \div 2 THEN <<>>
                                ELSE ByteAt(h, IF little THEN k ELSE Len(h) \div 2 + 1 - k) \o CatBytes(h, k + 1, little)
ZOfBytes(h, little) == IF h = "" THEN "0" ELSE Enc(OfTwos(CatBytes(h, 1, little)))
RECURSIVE MagBytesR(_, _)
LOCAL MagBytesR(m, max) == IF m = <<>> \/ max = 0 THEN ""
                           ELSE At(DigitChars, Dig(m, 2) + 1) \o At(DigitChars, m[1] + 1) \o MagBytesR(SubSeq(m, 3, Len(m)), max - 1)
ZMagBytes(x, max) == MagBytesR(Dec(x).m, max)
StrLen(t) == Len(t)
Chars(t) == [k \in 1..Len(t) |-> At(t, k)]
=============================================================================
