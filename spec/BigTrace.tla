------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Trace validation: is a history recorded from the real library a          *)
(* behaviour of BigNum?  Every event must be the step BigNum!Do with the     *)
(* recorded operation, operands, results, errors and the recorded new value  *)
(* of every object.                                                          *)
(*                                                                           *)
(* Checked: the operations of the property being decided.  Other operations  *)
(* occur in the histories to bring the objects into interesting states; for  *)
(* these the recorded values are taken over.  CheckFrame / CheckCanon extend *)
(* two demands to all operations: objects that are not destinations keep     *)
(* their values; the objects written are indistinguishable from freshly      *)
(* imported numbers of the same value (`can` lists those that are not).      *)
(***************************************************************************)
EXTENDS BigNum, Json, TLC, IOUtils

CONSTANTS Checked, CheckFrame, CheckCanon

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<reg, out, err, l>>

e == Trace[l]
Range(s) == {s[k] : k \in 1..Len(s)}
Logged(ev) == [k \in Regs |-> IF \E j \in 1..Len(ev.chg) : ev.chg[j][1] = k
                              THEN ev.chg[CHOOSE j \in 1..Len(ev.chg) : ev.chg[j][1] = k][2] ELSE reg[k]]
Has(op) == op \in Checked \/ op = "obs" \/ Checked = {"*"}

\* objects moved from, or never defined, may hold anything
Reset == /\ e.op = "reset"
         /\ reg' = Logged(e)
         /\ (CheckCanon => \A k \in Regs : reg'[k] = "0")
         /\ out' = <<>> /\ err' = <<>>

Crash == /\ e.op = "crash"
         /\ ~Has(e.what)
         /\ UNCHANGED <<reg, out, err>>

Exact == LET new == Logged(e) IN
         /\ Do(e.op, e.f, e.d, e.s, e.n, e.i, e.t, [k \in 1..Len(e.d) |-> new[e.d[k]]])
         /\ reg' = new /\ out' = e.o /\ err' = e.err
         /\ e.can = <<>>

\* the objects were not looked at after the operation: the specification says what they hold
Quiet == /\ Do(e.op, e.f, e.d, e.s, e.n, e.i, e.t, <<>>)
         /\ out' = e.o /\ err' = e.err

Trusted == /\ reg' = Logged(e) /\ out' = e.o /\ err' = e.err
           /\ CheckFrame => \A k \in Regs : reg'[k] # reg[k] => k \in Range(e.d)
           /\ CheckCanon => e.can = <<>> /\ \A k \in Range(e.d) : reg'[k] = "M" \/ ZIsCanonical(reg'[k])

Step == \/ Reset
        \/ Crash
        \/ e.op \notin {"reset", "crash"} /\ IF e.q THEN Quiet ELSE IF Has(e.op) THEN Exact ELSE Trusted

TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ Print(<<"REJECTED", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
