------------------------------- MODULE ZCheck -------------------------------
(* Compares the two evaluations of the operators on integers: Z (java/Z.java) *)
(* and ZDef (definitions in TLA+), operator by operator, over a domain of     *)
(* small numbers, word-boundary numbers and numerals.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Z
D == INSTANCE ZDef

CONSTANTS N,                                 \* small numbers are -N..N
          Full                               \* all of the boundary numbers, or a few
Small == {D!ZOfInt(n) : n \in -N..N}
Big == {"7fffffff", "80000000", "ffffffff", "100000000", "-80000000", "-ffffffff", "-100000000", "ffffffff00000000",
        "-ffffffff00000001", "7fffffffffffffff", "8000000000000000", "-8000000000000000", "-8000000000000001",
        "10000000000000000", "123456789abcdef0fedcba9876543210", "-fedcba98765432100000000000000000"}
Few == {"ffffffff", "-100000000", "-ffffffff00000001"}
Dom == Small \cup IF Full THEN Big ELSE Few
Nat1 == {0, 1, 3, 4, 31, 32, 33, 64, 65}
Texts == {"", "+", "-", "0", "-0", "+00", "z", "Zz", "10", "-1F", "+7g", "1-", "--1", "00012", " 1", "1 ", "1.0", "ffffffffffffffffffffff", "-zzzzzzzzzzzzzzzzzzzz"}
Hex == {"", "00", "ff", "80", "7f", "0080", "8000", "ff7f", "7fff", "0000000080", "ffffffff", "00000000000000ff", "0102030405"}

Same(a, b) == \/ a = b \/ Print(<<"differ", a, b>>, FALSE)
ASSUME Binary == \A x \in Dom, y \in Dom :
  /\ Same(ZAdd(x, y), D!ZAdd(x, y)) /\ Same(ZSub(x, y), D!ZSub(x, y)) /\ Same(ZMul(x, y), D!ZMul(x, y))
  /\ Same(ZAnd(x, y), D!ZAnd(x, y)) /\ Same(ZOr(x, y), D!ZOr(x, y)) /\ Same(ZXor(x, y), D!ZXor(x, y))
  /\ Same(ZCmp(x, y), D!ZCmp(x, y)) /\ Same(ZGcd(x, y), D!ZGcd(x, y))
  /\ y # "0" => Same(ZQuo(x, y), D!ZQuo(x, y)) /\ Same(ZRem(x, y), D!ZRem(x, y))
ASSUME Unary == \A x \in Dom :
  /\ Same(ZNot(x), D!ZNot(x)) /\ Same(ZNeg(x), D!ZNeg(x)) /\ Same(ZAbs(x), D!ZAbs(x)) /\ Same(ZNotBits(x), D!ZNotBits(x))
  /\ Same(ZBitLen(x), D!ZBitLen(x)) /\ Same(ZIsCanonical(x), D!ZIsCanonical(x))
  /\ \A n \in Nat1 : Same(ZShl(x, n), D!ZShl(x, n)) /\ Same(ZShr(x, n), D!ZShr(x, n)) /\ Same(ZMagBytes(x, n), D!ZMagBytes(x, n))
  /\ \A n \in 0..4 : Same(ZPow(x, n), D!ZPow(x, n)) /\ Same(ZWord(x, n), D!ZWord(x, n))
  /\ \A n \in {8, 16, 32, 64} : \A s \in BOOLEAN : Same(ZLow(x, n, s), D!ZLow(x, n, s))
  /\ \A r \in 2..36 : Same(ZFormat(x, r), D!ZFormat(x, r)) /\ Same(ZParse(ZFormat(x, r), r), x)
ASSUME Others ==
  /\ \A n \in -N..N : Same(ZOfInt(n), D!ZOfInt(n)) /\ Same(ZToInt(ZOfInt(n)), n) /\ Same(D!ZToInt(ZOfInt(n)), n)
  /\ \A n \in 0..12 : Same(ZFact(ZOfInt(n)), D!ZFact(D!ZOfInt(n)))
  /\ \A t \in Texts : \A r \in 2..36 : Same(ZParse(t, r), D!ZParse(t, r))
  /\ \A h \in Hex : \A l \in BOOLEAN : Same(ZOfBytes(h, l), D!ZOfBytes(h, l))
  /\ \A t \in Texts : Same(StrLen(t), D!StrLen(t)) /\ Same(Chars(t), D!Chars(t))
  /\ ~ZIsCanonical("00") /\ ~ZIsCanonical("-0") /\ ~ZIsCanonical("A") /\ ~ZIsCanonical("-") /\ ~ZIsCanonical("01")
  /\ ~D!ZIsCanonical("00") /\ ~D!ZIsCanonical("-0") /\ ~D!ZIsCanonical("A") /\ ~D!ZIsCanonical("01")
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
