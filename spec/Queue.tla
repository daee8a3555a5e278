-------------------------------- MODULE Queue ---------------------------------
(* A concurrent FIFO queue with shutdown: operations are called, take effect at   *)
(* one moment between their call and their return, and return.                   *)
(*   q     the elements, the one pushed first in front                           *)
(*   shut  shutdown has taken effect                                             *)
(*   pend  thread -> its operation under way, or Idle                            *)
EXTENDS Integers, Sequences
CONSTANT Threads
VARIABLES q, shut, pend
qvars == <<q, shut, pend>>
Idle == [f |-> "idle", v |-> 0, c |-> TRUE, done |-> FALSE, b |-> FALSE, r |-> <<>>]
QInit == q = <<>> /\ shut = FALSE /\ pend = [t \in Threads |-> Idle]
Call(t, f, v, c) == pend[t] = Idle /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.f = f, !.v = v, !.c = c]] /\ UNCHANGED <<q, shut>>
Done(t, b, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].b = b, ![t].r = r]
\* an element is refused if the condition of the push does not hold
Push(t) == /\ pend[t].f = "push" /\ Done(t, pend[t].c, <<>>) /\ UNCHANGED shut
           /\ q' = IF pend[t].c THEN Append(q, pend[t].v) ELSE q
Take(t) == q # <<>> /\ q' = Tail(q) /\ Done(t, TRUE, <<Head(q)>>) /\ UNCHANGED shut
CanPop == q # <<>> \/ shut
\* a taker waits for an element or for the shutdown
Pop(t) == /\ pend[t].f = "pop" /\ CanPop
          /\ (Take(t) \/ (q = <<>> /\ Done(t, FALSE, <<>>) /\ UNCHANGED <<q, shut>>))
Try(t) == pend[t].f = "try" /\ (Take(t) \/ (q = <<>> /\ Done(t, FALSE, <<>>) /\ UNCHANGED <<q, shut>>))
Empty(t) == pend[t].f = "empty" /\ Done(t, q = <<>>, <<>>) /\ UNCHANGED <<q, shut>>
Copy(t) == pend[t].f = "copy" /\ Done(t, TRUE, q) /\ UNCHANGED <<q, shut>>
Shut(t) == pend[t].f = "shut" /\ shut' = TRUE /\ Done(t, TRUE, <<>>) /\ UNCHANGED q
Effect(t) == ~pend[t].done /\ (Push(t) \/ Pop(t) \/ Try(t) \/ Empty(t) \/ Copy(t) \/ Shut(t))
Return(t, b, r) == pend[t].done /\ pend[t].b = b /\ pend[t].r = r /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<q, shut>>
\* nobody moves any more: only takers wait, and only while there is nothing to take and no shutdown
Quiet(blocked) == /\ {t \in Threads : pend[t] # Idle} = blocked
                  /\ \A t \in blocked : pend[t].f = "pop" /\ ~pend[t].done /\ ~CanPop
                  /\ UNCHANGED qvars
QType == \A t \in Threads : pend[t].f = "idle" => pend[t] = Idle
===============================================================================
