------------------------------ MODULE QueueTrace ------------------------------
(* Is a recorded concurrent history of the queue a behaviour of Queue? The        *)
(* moments at which the operations take effect are not recorded: silent steps.   *)
EXTENDS Queue, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Range(s) == {s[k] : k \in 1..Len(s)}
Event == \/ e.op = "reset" /\ q' = <<>> /\ shut' = FALSE /\ pend' = [t \in Threads |-> Idle]
         \/ e.op = "call" /\ Call(e.th, e.f, e.v, e.c)
         \/ e.op = "ret" /\ Return(e.th, e.b, e.r)
         \/ e.op = "quiet" /\ Quiet(Range(e.blocked))
TraceInit == QInit /\ l = 1 /\ TLCSet(1, 1)
Reached == IF l' > TLCGet(1) THEN TLCSet(1, l') ELSE TRUE
TraceNext == l <= Len(Trace) /\ ((l' = l + 1 /\ Event /\ Reached) \/ (l' = l /\ e.op \in {"ret", "quiet"} /\ \E t \in Threads : pend[t] # Idle /\ Effect(t)))
TraceSpec == TraceInit /\ [][TraceNext]_<<qvars, l>>
TraceAccepted == \/ TLCGet(1) = Len(Trace) + 1
                 \/ Print(<<"REJECTED", TLCGet(1), Trace[TLCGet(1)]>>, FALSE)
===============================================================================
