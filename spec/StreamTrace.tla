----------------------------- MODULE StreamTrace -----------------------------
(* Is a recorded history of streams a behaviour of Stream?  e.o: the characters *)
(* obtained by a "get"; e.v: <<stream, end?, next character, position>> of the   *)
(* streams with a specified value, seen after the operation.                     *)
EXTENDS Stream, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Agree == /\ \A k \in Slots : str'[k].s = "on" => \E i \in 1..Len(e.v) : e.v[i][1] = k
         /\ \A i \in 1..Len(e.v) : LET x == str'[e.v[i][1]] IN x.s = "on" => e.v[i][2] = Eof(x) /\ e.v[i][3] = Peek(x) /\ e.v[i][4] = x.pos
Reset == e.op = "reset" /\ src' = [k \in Sources |-> <<>>] /\ str' = [k \in Slots |-> None]
         /\ e.live = 0        \* the streams of the history before are destroyed: all their memory is given back
Step == \/ Reset
        \/ e.op \notin {"reset", "crash"} /\ Do(e.op, e.k, e.j, e.c, e.own, e.n, e.t) /\ e.o = (IF e.op = "get" THEN Got(str[e.k], e.n) ELSE <<>>) /\ Agree
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<stvars, l>>
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ Print(<<"REJECTED", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
===============================================================================
