---------------------------- MODULE FractionTrace ----------------------------
(* Is a recorded history of fractions a behaviour of Fraction?  e.all gives the *)
(* representation of every object after the operation.                          *)
EXTENDS Fraction, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Shown == [k \in Slots |-> e.all[k + 1]]
Agree == \A k \in Slots : f'[k] = Bad \/ f'[k] = Shown[k]
Step == \/ e.op = "reset" /\ f' = [k \in Slots |-> <<"0", "1">>] /\ out' = <<>> /\ err' = <<>> /\ Agree
        \/ /\ e.op \notin {"reset", "crash"}
           /\ Do(e.op, e.k, e.i, e.j, e.a, e.b, e.n, IF e.k < 0 THEN Bad ELSE Shown[e.k])
           /\ out' = e.o /\ err' = e.err /\ Agree
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ Print(<<"REJECTED", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
===============================================================================
