------------------------------- MODULE BigGrid -------------------------------
(***************************************************************************)
(* All pairs of boundary numbers: numbers of up to MaxLen words taken from  *)
(* Words, both signs.  TLC checks the laws of the integers that the          *)
(* operations of BigNum have to obey on every pair - the specification's     *)
(* semantics, seen through its algebra - and writes the numbers to a file;   *)
(* the real code is then run on the same pairs.                              *)
(***************************************************************************)
EXTENDS BigNum, TLC, CSV, IOUtils

CONSTANTS Words, MaxLen
VARIABLES a, b

Cat(w) == LET F[k \in 0..Len(w)] == IF k = 0 THEN "" ELSE F[k - 1] \o w[k] IN F[Len(w)]
Mags == {ZOfBytes("00" \o Cat(w), FALSE) : w \in UNION {[1..n -> Words] : n \in 1..MaxLen}}
Grid == Mags \cup {ZNeg(m) : m \in Mags}

S1(op, x) == Sem(op, "", <<x>>, 0, "", "").w[1]
S2(op, x, y) == Sem(op, "", <<x, y>>, 0, "", "").w[1]
Sh(op, x, n) == Sem(op, "", <<x>>, n, "", "").w[1]
O(op, x, n) == Sem(op, "", <<x>>, n, "", "").o[1]

Ring == /\ S2("add", a, b) = S2("add", b, a)
        /\ S2("sub", S2("add", a, b), b) = a
        /\ S2("sub", a, b) = S2("add", a, S1("neg", b))
        /\ S2("mul", a, b) = S2("mul", b, a)
        /\ S2("mul", a, S2("add", b, "1")) = S2("add", S2("mul", a, b), a)
        /\ S2("mul", S1("neg", a), b) = S1("neg", S2("mul", a, b))
        /\ S1("inc", S1("dec", a)) = a /\ S1("dec", a) = S2("sub", a, "1")
        /\ S1("abs", a) = IF Sgn(a) < 0 THEN S1("neg", a) ELSE a
Division == b # "0" => LET q == S2("div", a, b)  r == S2("mod", a, b) IN
        /\ S2("add", S2("mul", q, b), r) = a
        /\ ZCmp(ZAbs(r), ZAbs(b)) < 0
        /\ r = "0" \/ Sgn(r) = Sgn(a)
        /\ Sem("divrem", "", <<a, b>>, 0, "", "").w = <<q, r>>
Bits == /\ S1("not", a) = S2("sub", "-1", a)
        /\ S1("not", S2("and", a, b)) = S2("or", S1("not", a), S1("not", b))
        /\ S2("xor", a, b) = S2("sub", S2("or", a, b), S2("and", a, b))
        /\ S2("add", S2("or", a, b), S2("and", a, b)) = S2("add", a, b)
        /\ \A k \in 0..MaxLen : O("block", S2("and", a, b), k) = S2("and", O("block", a, k), O("block", b, k))
        /\ \A k \in 0..MaxLen : S2("add", O("block", S1("not", a), k), O("block", a, k)) = "ffffffff"
        /\ S1("notbits", S1("neg", a)) = S1("neg", S1("notbits", a))
Shifts == \A n \in {1, 31, 32, 33, 65} :
        /\ Sh("shl", a, n) = S2("mul", a, ZPow("2", n))
        /\ Sh("shr", Sh("shl", a, n), n) = a
        /\ LET r == S2("sub", a, Sh("shl", Sh("shr", a, n), n)) IN Sgn(r) >= 0 /\ ZCmp(r, ZPow("2", n)) < 0
Order == /\ (ZCmp(a, b) = 0) = (a = b)
         /\ ZCmp(a, b) = Sgn(S2("sub", a, b))
         /\ ZCmp(b, a) = -ZCmp(a, b)
Texts == \A r \in {2, 10, 16, 36} : /\ Sem("parse", "", <<>>, r, O("print", a, r), "").w[1] = a
                                    /\ Sem("parse", "", <<>>, r, O("print", a, r), "").o = <<TRUE>>
Bytes == LET n == 4 * MaxLen + 1 IN
         /\ ZOfBytes(O("tomag", a, n) \o "00", TRUE) = ZAbs(a)
         /\ StrLen(O("tomag", a, n)) = 2 * ((ZBitLen(a) + 7) \div 8)
Conv == /\ Sem("toi64", "", <<a>>, 0, "", "").o[1] = (Sem("trunc", "l", <<a>>, 0, "", "").o[1] = a)
        /\ Sem("tou64", "", <<a>>, 0, "", "").o[1] = (Sem("trunc", "ul", <<a>>, 0, "", "").o[1] = a)
Gcd == LET g == S2("gcd", a, b) IN /\ Sgn(g) >= 0
                                   /\ g = S2("gcd", b, a)
                                   /\ g = "0" => a = "0" /\ b = "0"
                                   /\ g # "0" => ZRem(a, g) = "0" /\ ZRem(b, g) = "0" /\ S2("gcd", ZQuo(a, g), ZQuo(b, g)) = "1"

\* one state per pair
GInit == Init /\ a \in Grid /\ b = "0"
GNext == b = "0" /\ b' \in Grid /\ UNCHANGED <<a, vars>>

Out == IOEnv.OUT
Emit == b = "0" => CSVWrite("%1$s", <<a>>, Out)
==============================================================================
