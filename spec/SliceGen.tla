------------------------------ MODULE SliceGen ------------------------------
(***************************************************************************)
(* Histories of SliceSpec, written down for the real code: every history of *)
(* Depth operations (model checking), or random ones (simulation, Random).   *)
(***************************************************************************)
EXTENDS SliceSpec, TLC, CSV, IOUtils
CONSTANTS Depth, Random, MaxLen
VARIABLES hist, fin
gvars == <<val, grp, out, hist, fin>>

Obs(v) == LET F[k \in 0..Cardinality(Slots)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF v[k - 1] # Unk THEN ToString(k - 1) ELSE "") IN F[Cardinality(Slots)]
SeqStr(c) == LET F[k \in 0..Len(c)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN "," ELSE "") \o ToString(c[k]) IN F[Len(c)]
Act(op, k, j, lo, hi, x, c) ==
  /\ Do(op, k, j, lo, hi, x, c)
  /\ \A i \in Slots : val'[i] = Unk \/ Len(val'[i]) <= MaxLen
  /\ hist' = Append(hist, op \o " " \o ToString(k) \o " " \o ToString(j) \o " " \o ToString(lo) \o " " \o ToString(hi) \o " " \o ToString(x)
                          \o " " \o (IF Len(c) = 0 THEN "-" ELSE SeqStr(c)) \o " " \o (IF Obs(val') = "" THEN "-" ELSE Obs(val')))

\* exhaustive: small parameters
Some == \/ \E k \in Slots : \/ Act("new", k, k, 0, 0, 0, <<>>)
                            \/ \E lh \in {<<0, -1>>, <<1, 2>>, <<1, 5>>} : Act("make", k, k, lh[1], lh[2], 0, <<7, 8, 9>>)
                            \/ Act("clone", k, k, 0, 0, 0, <<>>)
                            \/ Act("append", k, k, 0, 0, 4, <<>>) \/ Act("prepend", k, k, 0, 0, 5, <<>>)
                            \/ \E n \in {1, 3} : Act("preext", k, k, n, 0, 6, <<>>)
                            \/ \E lh \in {<<0, 0>>, <<0, 1>>, <<1, 2>>, <<0, 2>>, <<1, 4>>, <<0, 5>>, <<3, 3>>} : Act("slice", k, k, lh[1], lh[2], 0, <<>>)
                            \/ Act("set", k, k, 0, 0, 3, <<>>)
                            \/ Act("preextown", k, k, 3, 0, 0, <<>>)
        \/ \E k, j \in Slots : k # j /\ (\/ Act("copy", k, j, 0, 0, 0, <<>>) \/ Act("move", k, j, 0, 0, 0, <<>>)
                                        \/ \E lh \in {<<0, 1>>, <<1, 3>>, <<0, 4>>} : Act("sliced", k, j, lh[1], lh[2], 0, <<>>))
        \/ \E k, j \in Slots : k < j /\ Act("swap", k, j, 0, 0, 0, <<>>)

\* random: one operation drawn per step
Ops == <<"new", "make", "make", "copy", "copy", "copy", "move", "swap", "clone", "clone", "clone", "append", "append", "append", "prepend", "prepend", "preext", "preext",
         "appendown", "prependown", "preextown", "slice", "slice", "slice", "slice", "sliced", "sliced", "set", "fill", "rel", "rel">>
One(S) == {RandomElement(S)}
Size(k) == IF val[k] = Unk THEN 0 ELSE Len(val[k])
Draw == \E op \in {Ops[RandomElement(1..Len(Ops))]}, k \in One(Slots), j \in One(Slots), x \in One(1..9) :
        CASE op = "make" -> \E c \in {[i \in 1..RandomElement(1..5) |-> RandomElement(0..9)]} : \E lo \in One(0..(Len(c) - 1)) :
                               \E hi \in One({-1} \cup (lo + 1)..(Len(c) + 3)) : Act(op, k, k, lo, hi, 0, c)
          [] op = "preext" -> \E n \in One(0..4) : Act(op, k, k, n, 0, x, <<>>)
          [] op \in {"appendown", "prependown"} -> Size(k) > 0 /\ \E i \in One(0..(Size(k) - 1)) : Act(op, k, k, 0, i, 0, <<>>)
          [] op = "preextown" -> Size(k) > 0 /\ \E n \in One(0..4), i \in One(0..(Size(k) - 1)) : Act(op, k, k, n, i, 0, <<>>)
          [] op = "slice" -> \E lo \in One(0..(Size(k) + 1)) : \E hi \in One(lo..(Size(k) + 3)) : Act(op, k, k, lo, hi, 0, <<>>)
          [] op = "sliced" -> \E lo \in One(0..(Size(j) + 1)) : \E hi \in One(lo..(Size(j) + 3)) : Act(op, k, j, lo, hi, 0, <<>>)
          [] op = "set" -> Size(k) > 0 /\ \E i \in One(0..(Size(k) - 1)) : Act(op, k, k, i, 0, x, <<>>)
          [] OTHER -> Act(op, k, j, 0, 0, x, <<>>)
\* several draws are made, as one may not be possible; a random history is written when it is complete
Next == \/ Len(hist) < Depth /\ (IF Random THEN \E z \in 1..8 : Draw ELSE Some) /\ fin' = FALSE
        \/ Random /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<svars, hist>>
GInit == Init /\ hist = <<>> /\ fin = FALSE
GSpec == GInit /\ [][Next]_gvars
Join(h) == LET F[k \in 0..Len(h)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN ";" ELSE "") \o h[k] IN F[Len(h)]
Emit == (IF Random THEN fin ELSE Len(hist) = Depth) => CSVWrite("%1$s", <<Join(hist)>>, IOEnv.OUT)
==============================================================================
