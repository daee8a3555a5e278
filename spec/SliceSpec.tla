------------------------------ MODULE SliceSpec ------------------------------
(***************************************************************************)
(* Slices as sequences.                                                     *)
(*                                                                         *)
(*   val[k]  the sequence slice k holds, or Unk: another slice of the same  *)
(*           storage was changed without being detached first, and the      *)
(*           library promises nothing about k any more;                     *)
(*   grp[k]  which slices share storage (copying shares, detaching splits); *)
(*   out     what the last operation returned.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots
VARIABLES val, grp, out
svars == <<val, grp, out>>

Unk == <<-9>>
Known(k) == val[k] # Unk
Sharers(k) == {j \in Slots \ {k} : grp[j] = grp[k]}
Fresh == CHOOSE g \in 0..Cardinality(Slots) : \A k \in Slots : grp[k] # g
\* the infinite extension with zeros, from lo (inclusive, 0-based) to hi (exclusive)
Window(s, lo, hi) == [j \in 1..(hi - lo) |-> IF lo + j <= Len(s) THEN s[lo + j] ELSE 0]
Rep(n, x) == [j \in 1..n |-> x]

Init == val = [k \in Slots |-> <<>>] /\ grp = [k \in Slots |-> k] /\ out = <<>>

\* slice k gets sequence s; if it was changed in place (touch), the slices sharing its storage become unknown
Put(k, s, touch) == /\ val' = [j \in Slots |-> IF j = k THEN s ELSE IF touch /\ grp[j] = grp[k] THEN Unk ELSE val[j]]
                    /\ grp' = grp
Own(k, s) == val' = [val EXCEPT ![k] = s] /\ grp' = [grp EXCEPT ![k] = Fresh]

\* op with destination k, other slice j, small numbers lo, hi and an element x; c is a sequence
Do(op, k, j, lo, hi, x, c) ==
  CASE op = "new"     -> Own(k, <<>>) /\ out' = <<>>
    [] op = "make"    -> Own(k, Window(c, lo, IF hi < 0 THEN Len(c) ELSE hi)) /\ out' = <<>>
    [] op = "copy"    -> Known(j) /\ val' = [val EXCEPT ![k] = val[j]] /\ grp' = [grp EXCEPT ![k] = grp[j]] /\ out' = <<>>
    [] op = "move"    -> /\ Known(j) /\ j # k
                         /\ val' = [val EXCEPT ![k] = val[j], ![j] = <<>>]
                         /\ LET f == CHOOSE g \in 0..(Cardinality(Slots) + 1) : \A i \in Slots : i = k \/ grp[i] # g
                            IN grp' = [grp EXCEPT ![k] = grp[j], ![j] = f]
                         /\ out' = <<>>
    [] op = "swap"    -> /\ val' = [val EXCEPT ![k] = val[j], ![j] = val[k]] /\ grp' = [grp EXCEPT ![k] = grp[j], ![j] = grp[k]]
                         /\ out' = <<>>
    [] op = "clone"   -> Known(k) /\ (IF Sharers(k) = {} THEN UNCHANGED <<val, grp>> ELSE Own(k, val[k])) /\ out' = <<>>
    [] op = "append"  -> Known(k) /\ Put(k, Append(val[k], x), TRUE) /\ out' = <<>>
    [] op = "prepend" -> Known(k) /\ Put(k, <<x>> \o val[k], TRUE) /\ out' = <<>>
    [] op = "preext"  -> Known(k) /\ Put(k, Rep(lo, x) \o val[k], TRUE) /\ out' = <<>>
    \* the element is a reference to element hi of the slice itself
    [] op = "appendown"  -> Known(k) /\ hi < Len(val[k]) /\ Put(k, Append(val[k], val[k][hi + 1]), TRUE) /\ out' = <<>>
    [] op = "prependown" -> Known(k) /\ hi < Len(val[k]) /\ Put(k, <<val[k][hi + 1]>> \o val[k], TRUE) /\ out' = <<>>
    [] op = "preextown"  -> Known(k) /\ hi < Len(val[k]) /\ Put(k, Rep(lo, val[k][hi + 1]) \o val[k], TRUE) /\ out' = <<>>
    [] op = "slice"   -> Known(k) /\ lo <= hi /\ Put(k, Window(val[k], lo, hi), lo < hi /\ hi > Len(val[k])) /\ out' = <<>>
    [] op = "sliced"  -> /\ Known(j) /\ lo <= hi /\ k # j
                         /\ val' = [i \in Slots |-> IF i = k THEN Window(val[j], lo, hi)
                                                    ELSE IF i # j /\ grp[i] = grp[j] /\ lo < hi /\ hi > Len(val[j]) THEN Unk ELSE val[i]]
                         /\ grp' = [grp EXCEPT ![k] = grp[j]] /\ out' = <<>>
    [] op = "set"     -> Known(k) /\ lo < Len(val[k]) /\ Put(k, [val[k] EXCEPT ![lo + 1] = x], TRUE) /\ out' = <<>>
    [] op = "fill"    -> Known(k) /\ Put(k, [i \in 1..Len(val[k]) |-> x], TRUE) /\ out' = <<>>
    \* do the two share storage; are they the same view of it (reported only if so)
    [] op = "rel"     -> /\ UNCHANGED <<val, grp>>
                         /\ \E w \in BOOLEAN : /\ w => grp[k] = grp[j] /\ (Known(k) /\ Known(j) => val[k] = val[j])
                                               /\ (k = j => w)
                                               /\ out' = <<grp[k] = grp[j], w>>

TypeOK == /\ \A k \in Slots : grp[k] \in 0..(Cardinality(Slots) + 1)
==============================================================================
