---------------------------- MODULE FractionGrid ----------------------------
(* Laws of the rationals for the semantics in Fraction, on all pairs of small  *)
(* fractions; the fractions are written down for the real code.                *)
EXTENDS Fraction, TLC, CSV, IOUtils
CONSTANT N
VARIABLES p, q
Nums == {ZOfInt(n) : n \in -N..N}
Grid == {<<a, b>> : a \in Nums, b \in Nums \ {"0"}}
Eq(x, y) == ZMul(x[1], y[2]) = ZMul(y[1], x[2])
Laws == /\ Eq(Plus(p, q), Plus(q, p)) /\ Eq(Minus(Plus(p, q), q), p)
        /\ Eq(Times(p, q), Times(q, p)) /\ (q[1] # "0" => Eq(Times(Over(p, q), q), p))
        /\ (p[1] # "0" => Eq(Times(p, <<p[2], p[1]>>), <<"1", "1">>))
        /\ Eq(Times(p, Plus(q, <<"1", "1">>)), Plus(Times(p, q), p))
        /\ \A n \in {0, 1, 5} : \A t \in Decimals(p, n) : StrLen(t) >= (IF n = 0 THEN 1 ELSE n + 2)
Unique == \A x \in Grid : Represents(x, p[1], p[2]) => (x = p \/ Lowest(x)) /\ \A y \in Grid : Represents(y, p[1], p[2]) => y = x \/ y = <<ZNeg(x[1]), ZNeg(x[2])>>
GInit == Init /\ p \in Grid /\ q = <<"0", "1">>
GNext == q = <<"0", "1">> /\ q' \in Grid /\ UNCHANGED <<p, fvars>>
Emit == q = <<"0", "1">> => CSVWrite("%1$s %2$s", p, IOEnv.OUT)
==============================================================================
