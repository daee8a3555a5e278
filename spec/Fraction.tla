------------------------------- MODULE Fraction -------------------------------
(***************************************************************************)
(* Fractions as exact rational numbers, and gcd.                            *)
(*                                                                         *)
(*   f[k]  <<numerator, denominator>> as the object shows them, or Bad for   *)
(*         an object whose construction failed (zero denominator).           *)
(* A rational has two representations in lowest terms, <<n, d>> and          *)
(* <<-n, -d>>; which one an object shows is its own affair.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Z
CONSTANT Slots
VARIABLES f, out, err
fvars == <<f, out, err>>
Bad == <<>>
DIVBY0 == 1

Lowest(p) == p[2] # "0" /\ ZGcd(p[1], p[2]) = "1"
Same(p, n, d) == ZMul(p[1], d) = ZMul(n, p[2])
\* p represents n/d in lowest terms
Represents(p, n, d) == Lowest(p) /\ Same(p, n, d)

\* the exact result <<n, d>> of an operation on rationals given as <<n, d>>
Plus(p, q) == <<ZAdd(ZMul(p[1], q[2]), ZMul(q[1], p[2])), ZMul(p[2], q[2])>>
Minus(p, q) == <<ZSub(ZMul(p[1], q[2]), ZMul(q[1], p[2])), ZMul(p[2], q[2])>>
Times(p, q) == <<ZMul(p[1], q[1]), ZMul(p[2], q[2])>>
Over(p, q) == <<ZMul(p[1], q[2]), ZMul(p[2], q[1])>>

Neg(x) == ZCmp(x, "0") < 0
IsNeg(p) == p[1] # "0" /\ (Neg(p[1]) # Neg(p[2]))
Text(p, radix) == (IF IsNeg(p) THEN "-" ELSE "") \o ZFormat(ZAbs(p[1]), radix) \o "/" \o ZFormat(ZAbs(p[2]), radix)
Pad(s, n) == LET F[k \in 0..n] == IF k = 0 THEN "" ELSE F[k - 1] \o "0" IN IF StrLen(s) >= n THEN s ELSE F[n - StrLen(s)] \o s
\* the digits of |p|, truncated to n decimals
Digits(p, n) == LET a == ZAbs(p[1])  d == ZAbs(p[2])  i == ZQuo(a, d)
                IN ZFormat(i, 10) \o (IF n <= 0 THEN "" ELSE "." \o Pad(ZFormat(ZQuo(ZMul(ZRem(a, d), ZPow("a", n)), d), 10), n))
AllZero(p, n) == ZQuo(ZMul(ZAbs(p[1]), ZPow("a", IF n <= 0 THEN 0 ELSE n)), ZAbs(p[2])) = "0"
\* whether a number that is truncated to zero keeps its sign is not specified
Decimals(p, n) == IF ~IsNeg(p) THEN {Digits(p, n)} ELSE {"-" \o Digits(p, n)} \cup (IF AllZero(p, n) THEN {Digits(p, n)} ELSE {})

Set(k, p, n, d) == Represents(p, n, d) /\ f' = [f EXCEPT ![k] = p]
Keep == UNCHANGED f

Init == f = [k \in Slots |-> <<"0", "1">>] /\ out = <<>> /\ err = <<>>

\* operation op on slot k with operand slots i, j, numbers a, b and small number n; p: what the destination shows afterwards
Do(op, k, i, j, a, b, n, p) ==
  CASE op = "make"   -> IF b = "0" THEN f' = [f EXCEPT ![k] = Bad] /\ out' = <<FALSE>> /\ err' = <<DIVBY0>>
                        ELSE Set(k, p, a, b) /\ out' = <<TRUE>> /\ err' = <<>>
    [] op = "int"    -> Set(k, p, a, "1") /\ out' = <<>> /\ err' = <<>>
    [] op = "new"    -> Set(k, p, "0", "1") /\ out' = <<>> /\ err' = <<>>
    [] op = "copy"   -> f[i] # Bad /\ p = f[i] /\ f' = [f EXCEPT ![k] = p] /\ out' = <<>> /\ err' = <<>>
    [] op = "setnum" -> f[k] # Bad /\ Set(k, p, a, f[k][2]) /\ out' = <<>> /\ err' = <<>>
    [] op = "setden" -> f[k] # Bad /\ IF b = "0" THEN Keep /\ out' = <<FALSE>> /\ err' = <<DIVBY0>>
                                      ELSE Set(k, p, f[k][1], b) /\ out' = <<TRUE>> /\ err' = <<>>
    [] op = "add"    -> f[i] # Bad /\ f[j] # Bad /\ LET r == Plus(f[i], f[j]) IN Set(k, p, r[1], r[2]) /\ out' = <<>> /\ err' = <<>>
    [] op = "sub"    -> f[i] # Bad /\ f[j] # Bad /\ LET r == Minus(f[i], f[j]) IN Set(k, p, r[1], r[2]) /\ out' = <<>> /\ err' = <<>>
    [] op = "mul"    -> f[i] # Bad /\ f[j] # Bad /\ LET r == Times(f[i], f[j]) IN Set(k, p, r[1], r[2]) /\ out' = <<>> /\ err' = <<>>
    [] op = "div"    -> f[i] # Bad /\ f[j] # Bad /\ IF f[j][1] = "0" THEN f' = [f EXCEPT ![k] = p] /\ out' = <<>> /\ err' = <<DIVBY0>>
                                                    ELSE LET r == Over(f[i], f[j]) IN Set(k, p, r[1], r[2]) /\ out' = <<>> /\ err' = <<>>
    [] op = "recip"  -> f[i] # Bad /\ IF f[i][1] = "0" THEN f' = [f EXCEPT ![k] = p] /\ out' = <<FALSE>> /\ err' = <<DIVBY0>>
                                      ELSE Set(k, p, f[i][2], f[i][1]) /\ out' = <<TRUE>> /\ err' = <<>>
    [] op = "text"   -> f[i] # Bad /\ Keep /\ out' = <<Text(f[i], n)>> /\ err' = <<>>
    [] op = "dec"    -> f[i] # Bad /\ Keep /\ (\E t \in Decimals(f[i], n) : out' = <<t>>) /\ err' = <<>>
    [] op = "gcd"    -> Keep /\ out' = <<ZGcd(a, b)>> /\ err' = <<>>

TypeOK == \A k \in Slots : f[k] = Bad \/ (f[k][2] # "0" /\ ZIsCanonical(f[k][1]) /\ ZIsCanonical(f[k][2]))
==============================================================================
