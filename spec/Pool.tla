--------------------------------- MODULE Pool ----------------------------------
(* A thread pool. Tasks are submitted, enter a queue at one moment of their        *)
(* submission, are taken from it in order as soon as a thread of the pool is free, *)
(* run once, and their future delivers what they returned or threw. Closing the    *)
(* pool ends when everything submitted has run. A task submitted while the pool is *)
(* closing may be refused.                                                         *)
(*   n      threads of the pool        queue   tasks waiting, the oldest in front   *)
(*   st     task -> its state          run     thread of the pool -> task it runs   *)
(*   phase  "none", "open", "closing", "closed"                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Tasks
VARIABLES n, queue, st, run, phase
pvars == <<n, queue, st, run, phase>>
PInit == n = 0 /\ queue = <<>> /\ st = [t \in Tasks |-> "new"] /\ run = [w \in {} |-> 0] /\ phase = "none"
Open(k) == phase = "none" /\ phase' = "open" /\ n' = k /\ UNCHANGED <<queue, st, run>>
Go(t, from, to) == st[t] = from /\ st' = [st EXCEPT ![t] = to]
Submit(t) == phase \in {"open", "closing"} /\ Go(t, "new", "submitting") /\ UNCHANGED <<n, queue, run, phase>>
Enter(t) == Go(t, "submitting", "queued") /\ queue' = Append(queue, t) /\ UNCHANGED <<n, run, phase>>
Refuse(t) == phase = "closing" /\ Go(t, "submitting", "refused") /\ UNCHANGED <<n, queue, run, phase>>
Submitted(t) == st[t] \notin {"new", "submitting"} /\ UNCHANGED pvars
Busy == {t \in Tasks : st[t] \in {"taken", "running"}}
Take == /\ queue # <<>> /\ Cardinality(Busy) < n
        /\ Go(Head(queue), "queued", "taken") /\ queue' = Tail(queue) /\ UNCHANGED <<n, run, phase>>
Start(w, t) == /\ Go(t, "taken", "running") /\ (w \in DOMAIN run => run[w] = 0)
               /\ run' = [x \in DOMAIN run \cup {w} |-> IF x = w THEN t ELSE run[x]]
               /\ Cardinality(DOMAIN run') <= n /\ UNCHANGED <<n, queue, phase>>
Finish(w, t) == w \in DOMAIN run /\ run[w] = t /\ Go(t, "running", "done") /\ run' = [run EXCEPT ![w] = 0] /\ UNCHANGED <<n, queue, phase>>
\* what a future delivers: the result, or the exception, or that the task was refused; what task t returns or throws is t
Deliver(t, kind, v, kinds) == /\ (st[t] = "done" /\ kind = kinds[t] /\ v = t) \/ (st[t] = "refused" /\ kind = "broken")
                              /\ UNCHANGED pvars
Close == phase = "open" /\ phase' = "closing" /\ UNCHANGED <<n, queue, st, run>>
Closed == /\ phase = "closing" /\ \A t \in Tasks : st[t] \in {"new", "done", "refused"}
          /\ phase' = "closed" /\ UNCHANGED <<n, queue, st, run>>
\* nobody moves any more: the threads of the pool are idle, or wait inside a task
Quiet == /\ \A t \in Tasks : st[t] \notin {"submitting", "taken"}
         /\ queue # <<>> => Cardinality(Busy) = n
         /\ UNCHANGED pvars
PType == /\ \A t \in Tasks : (st[t] = "queued") = (\E k \in 1..Len(queue) : queue[k] = t)
         /\ Cardinality(Busy) <= n /\ \A t \in Tasks : st[t] = "running" => \E w \in DOMAIN run : run[w] = t
===============================================================================
