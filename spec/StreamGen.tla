------------------------------ MODULE StreamGen ------------------------------
(* Histories of Stream, written down for the real code: all of Depth           *)
(* operations (model checking) or random ones (simulation).  Every operation   *)
(* is followed by the streams that can be looked at.                           *)
EXTENDS Stream, FiniteSets, TLC, CSV, IOUtils
CONSTANTS Depth, Random
VARIABLES hist, fin
gvars == <<src, str, hist, fin>>
Obs(v) == LET F[k \in 0..Cardinality(Slots)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF v[k - 1].s = "on" THEN ToString(k - 1) ELSE "") IN F[Cardinality(Slots)]
SeqStr(c) == LET F[k \in 0..Len(c)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN "," ELSE "") \o ToString(c[k]) IN F[Len(c)]
B(b) == IF b THEN "1" ELSE "0"
Act(op, k, j, c, own, n, t) ==
  /\ Do(op, k, j, c, own, n, t)
  /\ hist' = Append(hist, op \o " " \o ToString(k) \o " " \o ToString(j) \o " " \o B(c) \o " " \o B(own) \o " " \o ToString(n) \o " "
                          \o (IF t = <<>> THEN "-" ELSE SeqStr(t)) \o " " \o (IF Obs(str') = "" THEN "-" ELSE Obs(str')))
Some == \/ \E k \in Sources, t \in {<<97, 0, 98>>} : Act("text", k, 0, FALSE, FALSE, 0, t)
        \/ \E k \in Slots, j \in Sources, own \in BOOLEAN : Act("new", k, j, FALSE, own, 0, <<>>) \/ Act("set", k, j, TRUE, own, 0, <<>>)
        \/ \E k \in Slots : Act("del", k, 0, FALSE, FALSE, 0, <<>>) \/ Act("get", k, 0, FALSE, FALSE, 2, <<>>)
        \/ \E k, j \in Slots : Act("make", k, j, FALSE, FALSE, 0, <<>>) \/ Act("move", k, j, FALSE, FALSE, 0, <<>>)
One(S) == {RandomElement(S)}
Ops == <<"text", "new", "new", "new", "set", "set", "del", "make", "move", "move", "get", "get", "get", "get", "get", "get">>
Lens == <<0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 40>>
Draw == \E op \in {Ops[RandomElement(1..Len(Ops))]}, k \in One(Slots), j \in One(Slots), s \in One(Sources), c \in One(BOOLEAN), own \in One(BOOLEAN) :
        CASE op = "text" -> \E n \in {Lens[RandomElement(1..Len(Lens))]} : \E t \in {[i \in 1..n |-> RandomElement({0, 32, 48, 97, 98, 99, 127, 128, 255})]} : Act(op, s, 0, FALSE, FALSE, 0, t)
          [] op \in {"new", "set"} -> Act(op, k, s, c, own, 0, <<>>)
          [] op = "get" -> \E n \in One({1, 1, 2, 3, 10, 50}) : Act(op, k, 0, FALSE, FALSE, n, <<>>)
          [] OTHER -> Act(op, k, j, FALSE, FALSE, 0, <<>>)
Next == \/ Len(hist) < Depth /\ (IF Random THEN \E z \in 1..8 : Draw ELSE Some) /\ fin' = FALSE
        \/ Random /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<stvars, hist>>
GInit == Init /\ hist = <<>> /\ fin = FALSE
GSpec == GInit /\ [][Next]_gvars
Join(h) == LET F[k \in 0..Len(h)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN ";" ELSE "") \o h[k] IN F[Len(h)]
Emit == (IF Random THEN fin ELSE Len(hist) = Depth) => CSVWrite("%1$s", <<Join(hist)>>, IOEnv.OUT)
==============================================================================
