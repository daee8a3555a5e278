------------------------------ MODULE QueueImpl -------------------------------
(* The queue step by step: a mutex, a condition variable with the set of threads  *)
(* waiting on it (which may wake up for no reason), the data, the shutdown flag.  *)
(* Refines Queue; with fair threads nobody who could go on stays behind.          *)
(* Each thread performs at most one operation of Ops after another, N in all.     *)
(* LockedNotify: the shutdown flag is set under the mutex (FALSE: the version of  *)
(* the queue in which a taker could miss the shutdown).                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, N, LockedNotify
Ops == {"push", "pop", "try", "empty", "shut"}
VARIABLES data, always, owner, waiting, pc, left, next, res
ivars == <<data, always, owner, waiting, pc, left, next, res>>
None == 0
Free == [f |-> "idle", v |-> 0, done |-> FALSE, b |-> FALSE, r |-> <<>>]
\* pc[t]: idle, lock, (in the mutex:) in, sleep, one, all, unlock, (then:) out; res[t]: the operation and its result
Init == /\ data = <<>> /\ always = FALSE /\ owner = None /\ waiting = {} /\ pc = [t \in Threads |-> "idle"]
        /\ left = N /\ next = 1 /\ res = [t \in Threads |-> Free]
Start(t, f) == /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
               /\ pc' = [pc EXCEPT ![t] = IF f = "shut" /\ ~LockedNotify THEN "in" ELSE "lock"]
               /\ res' = [res EXCEPT ![t] = [Free EXCEPT !.f = f, !.v = next]] /\ next' = IF f = "push" THEN next + 1 ELSE next
               /\ UNCHANGED <<data, always, owner, waiting>>
Lock(t) == pc[t] \in {"lock", "relock"} /\ owner = None /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<data, always, waiting, left, next, res>>
Fin(t, b, r) == res' = [res EXCEPT ![t].done = TRUE, ![t].b = b, ![t].r = r]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Body(t) ==
  /\ pc[t] = "in" /\ UNCHANGED <<left, next>>
  /\ CASE res[t].f = "push" -> data' = Append(data, res[t].v) /\ Fin(t, TRUE, <<>>) /\ Goto(t, "one") /\ UNCHANGED <<always, owner, waiting>>
       [] res[t].f = "pop" -> IF data = <<>> /\ ~always
                              THEN Goto(t, "sleep") /\ UNCHANGED <<data, always, owner, waiting, res>>
                              ELSE /\ IF data = <<>> THEN data' = data /\ Fin(t, FALSE, <<>>) ELSE data' = Tail(data) /\ Fin(t, TRUE, <<Head(data)>>)
                                   /\ Goto(t, "unlock") /\ UNCHANGED <<always, owner, waiting>>
       [] res[t].f = "try" -> /\ IF data = <<>> THEN data' = data /\ Fin(t, FALSE, <<>>) ELSE data' = Tail(data) /\ Fin(t, TRUE, <<Head(data)>>)
                              /\ Goto(t, "unlock") /\ UNCHANGED <<always, owner, waiting>>
       [] res[t].f = "empty" -> Fin(t, data = <<>>, <<>>) /\ Goto(t, "unlock") /\ UNCHANGED <<data, always, owner, waiting>>
       [] res[t].f = "shut" -> always' = TRUE /\ Fin(t, TRUE, <<>>) /\ Goto(t, "all") /\ UNCHANGED <<data, owner, waiting>>
\* releasing the mutex and beginning to wait is one step
Sleep(t) == pc[t] = "sleep" /\ waiting' = waiting \cup {t} /\ owner' = None /\ Goto(t, "wait") /\ UNCHANGED <<data, always, left, next, res>>
Awake(S) == [u \in Threads |-> IF u \in S THEN "relock" ELSE pc[u]]
NotifyOne(t) == /\ pc[t] = "one"
                /\ IF waiting = {} THEN waiting' = {} /\ Goto(t, "unlock")
                   ELSE \E u \in waiting : waiting' = waiting \ {u} /\ pc' = [Awake({u}) EXCEPT ![t] = "unlock"]
                /\ UNCHANGED <<data, always, owner, left, next, res>>
NotifyAll(t) == pc[t] = "all" /\ waiting' = {} /\ pc' = [Awake(waiting) EXCEPT ![t] = IF LockedNotify THEN "unlock" ELSE "out"] /\ UNCHANGED <<data, always, owner, left, next, res>>
Spurious(t) == t \in waiting /\ waiting' = waiting \ {t} /\ pc' = Awake({t}) /\ UNCHANGED <<data, always, owner, left, next, res>>
Unlock(t) == pc[t] = "unlock" /\ owner' = None /\ Goto(t, "out") /\ UNCHANGED <<data, always, waiting, left, next, res>>
Out(t) == pc[t] = "out" /\ Goto(t, "idle") /\ res' = [res EXCEPT ![t] = Free] /\ UNCHANGED <<data, always, owner, waiting, left, next>>
Step(t) == Lock(t) \/ Body(t) \/ Sleep(t) \/ NotifyOne(t) \/ NotifyAll(t) \/ Unlock(t) \/ Out(t)
Next == \E t \in Threads : Step(t) \/ Spurious(t) \/ \E f \in Ops : Start(t, f)
Fair == \A t \in Threads : SF_ivars(Lock(t)) /\ WF_ivars(Body(t) \/ Sleep(t) \/ NotifyOne(t) \/ NotifyAll(t) \/ Unlock(t) \/ Out(t))
Spec == Init /\ [][Next]_ivars /\ Fair
-------------------------------------------------------------------------------
A == INSTANCE Queue WITH q <- data, shut <- always,
       pend <- [t \in Threads |-> [f |-> res[t].f, v |-> IF res[t].f = "push" THEN res[t].v ELSE 0, c |-> TRUE, done |-> res[t].done, b |-> res[t].b, r |-> res[t].r]]
ANext == \E t \in Threads : A!Effect(t) \/ (\E f \in Ops, v \in 0..N : A!Call(t, f, v, TRUE)) \/ (\E b \in BOOLEAN, r \in {<<>>} \cup {<<v>> : v \in 1..N} : A!Return(t, b, r))
Refines == A!QInit /\ [][ANext]_(A!qvars)
Mutex == owner # None => pc[owner] \in {"in", "sleep", "one", "all", "unlock"}
\* takers are left waiting only while there is nothing to take
Delivered == []<>(\A t \in Threads : pc[t] = "wait" => data = <<>> /\ ~always)
Ends == \A t \in Threads : pc[t] \notin {"idle", "wait"} ~> pc[t] \in {"idle", "wait"}
Closes == \A t \in Threads : always ~> pc[t] = "idle" \/ left > 0
===============================================================================
