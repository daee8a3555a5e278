------------------------------ MODULE SliceTrace ------------------------------
(* Is a recorded history of slices a behaviour of SliceSpec?  After every       *)
(* operation the recording gives the contents of all slices the specification  *)
(* knows: read by index, by iterators and by their number of elements.         *)
EXTENDS SliceSpec, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Seen(s) == [k \in 1..Len(s) |-> s[k]]
\* e.v: list of <<slot, by index, by iterator, count>>
Agree == /\ \A k \in Slots : val'[k] # Unk => \E i \in 1..Len(e.v) : e.v[i][1] = k
         /\ \A i \in 1..Len(e.v) : LET k == e.v[i][1] IN val'[k] # Unk =>
                 e.v[i][2] = val'[k] /\ e.v[i][3] = val'[k] /\ e.v[i][4] = Len(val'[k])
Reset == e.op = "reset" /\ val' = [k \in Slots |-> <<>>] /\ grp' = [k \in Slots |-> k] /\ out' = <<>> /\ Agree
Step == \/ Reset
        \/ e.op \notin {"reset", "crash"} /\ Do(e.op, e.k, e.j, e.lo, e.hi, e.x, e.c) /\ out' = e.o /\ Agree
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ Print(<<"REJECTED", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
===============================================================================
