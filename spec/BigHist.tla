------------------------------- MODULE BigHist -------------------------------
(***************************************************************************)
(* Every history of Depth operations on a few objects that can share         *)
(* storage: copies, moves, swaps, assignments, self-assignments and in-place *)
(* modifications.  TLC enumerates all of them from the specification and     *)
(* writes each complete one as a script; the script is run on the real code  *)
(* and the recording validated by BigTrace.                                  *)
(***************************************************************************)
EXTENDS BigNum, TLC, CSV, IOUtils

CONSTANTS Depth, Moves, Start1, Start2
VARIABLE hist
hvars == <<reg, out, err, hist>>

Start == [k \in Regs |-> IF k = 0 THEN Start1 ELSE IF k = 1 THEN Start2 ELSE "0"]
D1(k) == ToString(k)
D2(k, j) == ToString(k) \o "," \o ToString(j)
Cmd(op, f, d, s, n, i) == op \o " " \o f \o " " \o d \o " " \o s \o " " \o ToString(n) \o " " \o i \o " -"

Act(op, f, d, s, n, ds, ss, i, is) == Do(op, f, d, s, n, is, "", <<>>) /\ hist' = Append(hist, Cmd(op, f, ds, ss, n, i))
U(op, k) == Act(op, "A", <<k>>, <<k>>, 0, D1(k), D1(k), "-", <<>>)

Next == /\ Len(hist) < Depth
        /\ \/ \E j, k \in Regs : Act("copy", "as", <<k>>, <<j>>, 0, D1(k), D1(j), "-", <<>>)
           \/ \E j, k \in Regs : j # k /\ Moves /\ Act("move", "as", <<k, j>>, <<j>>, 0, D2(k, j), D1(j), "-", <<>>)
           \/ \E j, k \in Regs : j < k /\ Moves /\ reg[j] # "M" /\ reg[k] # "M" /\ Act("swap", "m", <<j, k>>, <<j, k>>, 0, D2(j, k), D2(j, k), "-", <<>>)
           \/ \E k \in Regs : U("inc", k) \/ U("neg", k) \/ U("not", k)
           \/ \E k \in Regs : \E n \in {33} : Act("shr", "A", <<k>>, <<k>>, n, D1(k), D1(k), "-", <<>>) \/ Act("shl", "A", <<k>>, <<k>>, n, D1(k), D1(k), "-", <<>>)
           \/ \E j, k \in Regs : Act("add", "A", <<k>>, <<k, j>>, 0, D1(k), D2(k, j), "-", <<>>) \/ Act("sub", "A", <<k>>, <<k, j>>, 0, D1(k), D2(k, j), "-", <<>>)
           \/ \E k \in Regs : Act("ofi64", "as", <<k>>, <<-1>>, 0, D1(k), "-1", "5", <<"5">>)

HInit == reg = Start /\ out = <<>> /\ err = <<>> /\ hist = <<>>
HSpec == HInit /\ [][Next]_hvars

\* objects change only as destinations (histories are written down for the real code)
Dests(c) == c
Join(h) == LET F[k \in 0..Len(h)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN ";" ELSE "") \o h[k] IN F[Len(h)]
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<Join(hist)>>, IOEnv.OUT)
Valid == TypeOK
==============================================================================
