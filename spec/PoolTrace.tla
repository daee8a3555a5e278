------------------------------- MODULE PoolTrace -------------------------------
(* Is a recorded history of a thread pool a behaviour of Pool? Silent: the moment  *)
(* a task enters the queue, and the moment it is taken from it.                    *)
EXTENDS Pool, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kinds
e == Trace[l]
tvars == <<pvars, kinds, l>>
Event == \/ e.op = "reset" /\ n' = 0 /\ queue' = <<>> /\ st' = [t \in Tasks |-> "new"] /\ run' = [w \in {} |-> 0] /\ phase' = "none" /\ kinds' = [t \in Tasks |-> ""]
         \/ e.op = "open" /\ Open(e.n) /\ UNCHANGED kinds
         \/ e.op = "submit" /\ Submit(e.t) /\ kinds' = [kinds EXCEPT ![e.t] = e.k]
         \/ e.op = "submitted" /\ Submitted(e.t) /\ UNCHANGED kinds
         \/ e.op = "start" /\ Start(e.th, e.t) /\ UNCHANGED kinds
         \/ e.op = "fin" /\ Finish(e.th, e.t) /\ UNCHANGED kinds
         \/ e.op = "got" /\ Deliver(e.t, e.k, e.v, kinds) /\ UNCHANGED kinds
         \/ e.op = "close" /\ Close /\ UNCHANGED kinds
         \/ e.op = "closed" /\ Closed /\ UNCHANGED kinds
         \/ e.op = "quiet" /\ Quiet /\ UNCHANGED kinds
Silent == \/ e.op \in {"start", "submitted"} /\ \E t \in Tasks : st[t] = "submitting" /\ (Enter(t) \/ Refuse(t))
          \/ e.op = "start" /\ st[e.t] = "queued" /\ Take   \* not before it is needed: taking a task later is never worse
TraceInit == PInit /\ kinds = [t \in Tasks |-> ""] /\ l = 1 /\ TLCSet(1, 1)
Reached == IF l' > TLCGet(1) THEN TLCSet(1, l') ELSE TRUE
TraceNext == l <= Len(Trace) /\ ((l' = l + 1 /\ Event /\ Reached) \/ (l' = l /\ Silent /\ UNCHANGED kinds))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == \/ TLCGet(1) = Len(Trace) + 1
                 \/ Print(<<"REJECTED", TLCGet(1), Trace[TLCGet(1)]>>, FALSE)
===============================================================================
