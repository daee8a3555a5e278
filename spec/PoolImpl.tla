------------------------------- MODULE PoolImpl --------------------------------
(* The thread pool step by step, on the queue of QueueImpl: thread 0 submits the    *)
(* tasks 1..K, then destroys the pool; a task of Nesting submits the task K + t     *)
(* while it runs. Workers: 1..W. Refines Pool; the destructor terminates.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, W, Nesting, LockedNotify
Workers == 1..W
Threads == 0..W
AllTasks == 1..(2 * K)
VARIABLES data, always, running, owner, waiting, pc, todo, task, got, st, phase, run
ivars == <<data, always, running, owner, waiting, pc, todo, task, got, st, phase, run>>
None == -1
\* task[t]: the task a worker holds (0: none); got[t]: the task a thread is submitting
Init == /\ data = <<>> /\ always = FALSE /\ running = TRUE /\ owner = None /\ waiting = {} /\ phase = "open"
        /\ pc = [t \in Threads |-> IF t = 0 THEN "main" ELSE "poplock"] /\ todo = 1 /\ task = [t \in Threads |-> 0] /\ got = [t \in Threads |-> 0]
        /\ st = [t \in AllTasks |-> "new"] /\ run = [w \in {} |-> 0]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
St(x, s) == st' = [st EXCEPT ![x] = s]
Acquire(t) == owner = None /\ owner' = t
Main == /\ pc[0] = "main" /\ UNCHANGED <<data, always, owner, waiting, task, run>>
        /\ IF todo <= K THEN St(todo, "submitting") /\ got' = [got EXCEPT ![0] = todo] /\ todo' = todo + 1 /\ Goto(0, "addlock") /\ UNCHANGED <<running, phase>>
           ELSE phase' = "closing" /\ Goto(0, "stop") /\ UNCHANGED <<running, got, todo, st>>
Stop == pc[0] = "stop" /\ running' = FALSE /\ Goto(0, IF LockedNotify THEN "alllock" ELSE "setall") /\ UNCHANGED <<data, always, owner, waiting, todo, task, got, st, phase, run>>
AllLock == pc[0] = "alllock" /\ Acquire(0) /\ Goto(0, "setall") /\ UNCHANGED <<data, always, running, waiting, todo, task, got, st, phase, run>>
SetAll == pc[0] = "setall" /\ always' = TRUE /\ Goto(0, "all") /\ UNCHANGED <<data, running, owner, waiting, todo, task, got, st, phase, run>>
Awake(S) == [u \in Threads |-> IF u \in S THEN "poplock" ELSE pc[u]]
NotifyAll == /\ pc[0] = "all" /\ waiting' = {} /\ pc' = [Awake(waiting) EXCEPT ![0] = "join"] /\ owner' = (IF LockedNotify THEN None ELSE owner)
             /\ UNCHANGED <<data, always, running, todo, task, got, st, phase, run>>
Join == /\ pc[0] = "join" /\ \A w \in Workers : pc[w] = "exit"
        /\ Goto(0, "end") /\ phase' = "closed" /\ UNCHANGED <<data, always, running, owner, waiting, todo, task, got, st, run>>
\* submitting, by thread 0 or by a worker inside a task
AddLock(t) == pc[t] = "addlock" /\ Acquire(t) /\ Goto(t, "add") /\ UNCHANGED <<data, always, running, waiting, todo, task, got, st, phase, run>>
Add(t) == /\ pc[t] = "add" /\ UNCHANGED <<always, running, owner, waiting, todo, task, got, phase, run>>
          /\ IF running THEN data' = Append(data, got[t]) /\ St(got[t], "queued") /\ Goto(t, "one") ELSE data' = data /\ St(got[t], "refused") /\ Goto(t, "addunlock")
NotifyOne(t) == /\ pc[t] = "one" /\ UNCHANGED <<data, always, running, owner, todo, task, got, st, phase, run>>
                /\ IF waiting = {} THEN waiting' = {} /\ Goto(t, "addunlock") ELSE \E u \in waiting : waiting' = waiting \ {u} /\ pc' = [Awake({u}) EXCEPT ![t] = "addunlock"]
AddUnlock(t) == pc[t] = "addunlock" /\ owner' = None /\ got' = [got EXCEPT ![t] = 0] /\ Goto(t, IF t = 0 THEN "main" ELSE "finish") /\ UNCHANGED <<data, always, running, waiting, todo, task, st, phase, run>>
\* a worker
PopLock(w) == pc[w] = "poplock" /\ Acquire(w) /\ Goto(w, "pop") /\ UNCHANGED <<data, always, running, waiting, todo, task, got, st, phase, run>>
Pop(w) == /\ pc[w] = "pop" /\ UNCHANGED <<always, running, owner, waiting, todo, got, phase, run>>
          /\ IF data # <<>> THEN data' = Tail(data) /\ task' = [task EXCEPT ![w] = Head(data)] /\ St(Head(data), "taken") /\ Goto(w, "popunlock")
             ELSE data' = data /\ UNCHANGED <<task, st>> /\ Goto(w, IF always THEN "popunlock" ELSE "sleep")
Sleep(w) == pc[w] = "sleep" /\ waiting' = waiting \cup {w} /\ owner' = None /\ Goto(w, "wait") /\ UNCHANGED <<data, always, running, todo, task, got, st, phase, run>>
Spurious(w) == w \in waiting /\ waiting' = waiting \ {w} /\ pc' = Awake({w}) /\ UNCHANGED <<data, always, running, owner, todo, task, got, st, phase, run>>
PopUnlock(w) == pc[w] = "popunlock" /\ owner' = None /\ Goto(w, IF task[w] # 0 THEN "start" ELSE "check") /\ UNCHANGED <<data, always, running, waiting, todo, task, got, st, phase, run>>
Start(w) == /\ pc[w] = "start" /\ UNCHANGED <<data, always, running, owner, waiting, todo, task, phase>>
            /\ run' = [x \in DOMAIN run \cup {w} |-> IF x = w THEN task[w] ELSE run[x]]
            /\ IF task[w] \in Nesting THEN Goto(w, "nest") /\ St(task[w], "running") /\ UNCHANGED got ELSE Goto(w, "finish") /\ St(task[w], "running") /\ UNCHANGED got
Nest(w) == pc[w] = "nest" /\ St(K + task[w], "submitting") /\ got' = [got EXCEPT ![w] = K + task[w]] /\ Goto(w, "addlock") /\ UNCHANGED <<data, always, running, owner, waiting, todo, task, phase, run>>
Finish(w) == /\ pc[w] = "finish" /\ St(task[w], "done") /\ run' = [run EXCEPT ![w] = 0] /\ task' = [task EXCEPT ![w] = 0] /\ Goto(w, "check")
             /\ UNCHANGED <<data, always, running, owner, waiting, todo, got, phase>>
Check(w) == pc[w] = "check" /\ Goto(w, IF running THEN "poplock" ELSE "emptylock") /\ UNCHANGED <<data, always, running, owner, waiting, todo, task, got, st, phase, run>>
EmptyLock(w) == pc[w] = "emptylock" /\ Acquire(w) /\ Goto(w, "empty") /\ UNCHANGED <<data, always, running, waiting, todo, task, got, st, phase, run>>
Empty(w) == pc[w] = "empty" /\ owner' = None /\ Goto(w, IF data = <<>> THEN "exit" ELSE "poplock") /\ UNCHANGED <<data, always, running, waiting, todo, task, got, st, phase, run>>
Locks(t) == AddLock(t) \/ (t = 0 /\ AllLock) \/ (t # 0 /\ (PopLock(t) \/ EmptyLock(t)))
Steps(t) == Add(t) \/ NotifyOne(t) \/ AddUnlock(t) \/ (t = 0 /\ (Main \/ Stop \/ SetAll \/ NotifyAll \/ Join))
            \/ (t # 0 /\ (Pop(t) \/ Sleep(t) \/ PopUnlock(t) \/ Start(t) \/ Nest(t) \/ Finish(t) \/ Check(t) \/ Empty(t)))
Next == \E t \in Threads : Locks(t) \/ Steps(t) \/ (t # 0 /\ Spurious(t))
Spec == Init /\ [][Next]_ivars /\ \A t \in Threads : SF_ivars(Locks(t)) /\ WF_ivars(Steps(t))
-------------------------------------------------------------------------------
A == INSTANCE Pool WITH Tasks <- AllTasks, n <- W, queue <- data
ANext == \/ A!Take \/ A!Close \/ A!Closed
         \/ \E t \in AllTasks : A!Submit(t) \/ A!Enter(t) \/ A!Refuse(t)
         \/ \E t \in AllTasks, w \in Workers : A!Start(w, t) \/ A!Finish(w, t)
Refines == A!PType /\ [][ANext]_(A!pvars)
Mutex == \A t \in Threads : pc[t] \in {"add", "one", "addunlock", "pop", "sleep", "popunlock", "empty"} => owner = t
Terminates == <>(pc[0] = "end")
\* without the shutdown: everything submitted is run
Runs == \A t \in AllTasks : st[t] = "queued" ~> st[t] = "done"
===============================================================================
