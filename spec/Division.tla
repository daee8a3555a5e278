------------------------------- MODULE Division -------------------------------
(* Long division as the library does it (knuthDivImpl), in base B with words    *)
(* that hold numbers below B^2: normalise, estimate each digit of the quotient  *)
(* from two digits of the dividend and one of the divisor, correct the estimate *)
(* at most once, multiply and subtract, add back while the result is negative,  *)
(* denormalise.  TLC runs it on every dividend of up to MaxU and every divisor   *)
(* of 2..MaxV digits.                                                            *)
EXTENDS Integers, Sequences
CONSTANTS B, MaxU, MaxV
VARIABLES u, v,            \* the operands
          n, m, d,         \* digits of the divisor, digits of the dividend beyond these, factor of the normalisation
          x, y,            \* dividend and divisor, normalised
          j, q, pc,
          est, qh,         \* the estimate before and after its correction
          borrow, back     \* what the subtraction left to repay; times added back for this digit
dvars == <<u, v, n, m, d, x, y, j, q, pc, est, qh, borrow, back>>

Pow(k) == B ^ k
Dig(a, k) == (a \div Pow(k)) % B
RECURSIVE Len_(_)
Len_(a) == IF a = 0 THEN 0 ELSE 1 + Len_(a \div B)
RECURSIVE Norm(_)                     \* the power of two that brings a digit to B/2 or more
Norm(t) == IF 2 * t >= B THEN 1 ELSE 2 * Norm(2 * t)

Init == /\ v \in B..(Pow(MaxV) - 1) /\ u \in (v + 1)..(Pow(MaxU) - 1)
        /\ n = Len_(v) /\ m = IF Len_(u) = n THEN 1 ELSE Len_(u) - n
        /\ d = 0 /\ x = 0 /\ y = 0 /\ j = 0 /\ q = 0 /\ pc = "norm" /\ est = 0 /\ qh = 0 /\ borrow = 0 /\ back = 0
Normalise == /\ pc = "norm" /\ d' = Norm(Dig(v, n - 1)) /\ x' = u * d' /\ y' = v * d' /\ j' = m /\ pc' = "est"
             /\ UNCHANGED <<u, v, n, m, q, est, qh, borrow, back>>
Two == Dig(x, j + n) * B + Dig(x, j + n - 1)
E == Two \div Dig(y, n - 1)
R == Two % Dig(y, n - 1)
High == E = B \/ E * Dig(y, n - 2) > B * R + Dig(x, j + n - 2)
Estimate == /\ pc = "est" /\ est' = E /\ qh' = (IF High THEN E - 1 ELSE E) /\ pc' = "sub" /\ back' = 0
            /\ UNCHANGED <<u, v, n, m, d, x, y, j, q, borrow>>
\* the words of the multiplication and subtraction: at digit k, <<carry before the shift, borrow before the shift>>
Sub == LET F[k \in 0..n] == IF k = 0 THEN <<0, 0>>
             ELSE LET c == (F[k - 1][1] \div B) + qh * Dig(y, k - 1) IN <<c, (F[k - 1][2] \div B) + Dig(x, j + k - 1) - (c % B)>> IN F
\* the digits j .. j + n of x become those of z, taken modulo B^(n+1)
Part == (x \div Pow(j)) % Pow(n + 1)
Put(z) == x - Part * Pow(j) + (z % Pow(n + 1)) * Pow(j)
MulSub == /\ pc = "sub"
          /\ LET z == Part - qh * y IN
             /\ x' = Put(z) /\ borrow' = ((Sub[n][2] \div B) + Dig(x, j + n) - (Sub[n][1] \div B)) \div B
             /\ borrow' = z \div Pow(n + 1)          \* digit by digit or at once: the same
          /\ pc' = "back" /\ UNCHANGED <<u, v, n, m, d, y, j, q, est, qh, back>>
AddBack == /\ pc = "back" /\ borrow < 0
           /\ LET z == Part + y IN x' = Put(z) /\ borrow' = borrow + (z \div Pow(n + 1))
           /\ qh' = qh - 1 /\ back' = back + 1 /\ UNCHANGED <<u, v, n, m, d, y, j, q, pc, est>>
NextDigit == /\ pc = "back" /\ borrow = 0 /\ q' = q * B + qh /\ j' = j - 1 /\ pc' = IF j = 0 THEN "end" ELSE "est"
             /\ UNCHANGED <<u, v, n, m, d, x, y, est, qh, borrow, back>>
Next == Normalise \/ Estimate \/ MulSub \/ AddBack \/ NextDigit
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Next)

\* no word overflows, no digit is out of range
Fits == /\ pc = "est" => Two < B * B /\ E * Dig(y, n - 2) < B * B /\ B * R + Dig(x, j + n - 2) < B * B /\ E <= B + 1
        /\ pc = "sub" => \A k \in 1..n : Sub[k][1] < B * B /\ Sub[k][2] \in -(B * B)..(B * B - 1)
        /\ pc = "back" => borrow \in {-1, 0}
        /\ pc \in {"est", "end"} => Len_(q) <= m + 1
\* what is left of the dividend fits the digits still to come
Loop == pc \in {"est", "end"} /\ d # 0 => x < y * Pow(j + 1) /\ u * d = q * y * Pow(j + 1) + x
\* the estimate is never too small, too large by one at most once it was corrected, and added back at most once
Close == /\ pc = "sub" => LET t == x \div (y * Pow(j)) IN qh \in t..(t + 1)
         /\ back <= 1
Right == pc = "end" => /\ x % d = 0 /\ u = q * v + (x \div d) /\ (x \div d) < v
Ends == <>(pc = "end")
\* the rare paths exist in this base (negations, to be violated, when one wants to see a run)
NoBack == back = 0
NoTop == est < B
==============================================================================
