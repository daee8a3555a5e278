------------------------------ MODULE PevalImpl -------------------------------
(* peval step by step, on any syntax tree of up to N nodes and W workers: the caller *)
(* submits the nodes level by level (the branches of a conditional are not submitted,*)
(* the node evaluates one of them itself), waits for a level, submits the next; a    *)
(* worker evaluates a node from the promises of its children. Whatever the tree and  *)
(* the schedule: no worker ever waits for a child (so one worker is enough), every   *)
(* node is evaluated at most once, what is not to be evaluated is not, and the result*)
(* is the one of sequential evaluation, a thrown exception included.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, W
Nodes == 1..N
Workers == 1..W
\* the tree: parent (of the nodes 2..n; 1 is the root), kind, branch taken by a conditional, the nodes whose function throws
VARIABLES n, parent, kind, taken, boom
\* main: "submit", "wait", "get", "end"; ready: to be submitted; left: children not yet submitted; sent; queue: of the pool; work[w]: node or 0; promise[i]
VARIABLES pc, ready, left, sent, queue, work, promise, result, evals
tree == <<n, parent, kind, taken, boom>>
vars == <<n, parent, kind, taken, boom, pc, ready, left, sent, queue, work, promise, result, evals>>
SetSeq(S) == LET R[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o R[T \ {x}] IN R[S]
Children(i) == SetSeq({j \in 2..n : parent[j] = i})
\* the children that are scheduled
Sched(i) == IF kind[i] = "if" THEN <<Children(i)[1]>> ELSE Children(i)
Scheduled == LET R[k \in 1..n] == IF k = 1 THEN {1} ELSE R[k - 1] \cup (IF parent[k] \in R[k - 1] /\ \E j \in 1..Len(Sched(parent[k])) : Sched(parent[k])[j] = k THEN {k} ELSE {}) IN R[n]
\* sequential evaluation: [x: it throws, v: value, as an uninterpreted term, u: the nodes that are evaluated]
Plain ==
  LET S[i \in Nodes] ==
        LET c == Children(i) IN
        IF kind[i] = "if" THEN LET q == S[c[1]] b == S[c[taken[i]]] IN IF q.x THEN q ELSE [x |-> b.x, v |-> <<i, q.v, b.v>>, u |-> {i} \cup q.u \cup b.u]
        ELSE LET thrown == \E k \in 1..Len(c) : S[c[k]].x
                 u == {i} \cup UNION {S[c[k]].u : k \in 1..Len(c)}
             IN IF thrown \/ i \in boom THEN [x |-> TRUE, v |-> <<>>, u |-> u] ELSE [x |-> FALSE, v |-> <<i>> \o [k \in 1..Len(c) |-> S[c[k]].v], u |-> u]
  IN S
Init == /\ n \in 1..N /\ parent \in {p \in [2..n -> Nodes] : \A i \in DOMAIN p : p[i] < i} 
        /\ kind \in [1..n -> {"op", "if"}] /\ (\A i \in 1..n : kind[i] = "if" => Len(Children(i)) = 3)
        /\ taken \in [1..n -> {2, 3}] /\ (\A i \in 1..n : kind[i] = "op" => taken[i] = 2)
        /\ boom \in {b \in SUBSET (1..n) : Cardinality(b) <= 1} /\ (\A i \in boom : kind[i] = "op")
        /\ pc = "submit" /\ left = [i \in 1..n |-> Len(Sched(i))] /\ ready = SelectSeq(SetSeq(Scheduled), LAMBDA i : left[i] = 0)
        /\ sent = {} /\ queue = <<>> /\ work = [w \in Workers |-> 0] /\ promise = [i \in 1..n |-> <<>>] /\ result = <<>> /\ evals = [i \in 1..n |-> 0]
\* the caller: `batch` is what was ready when the level began; here a level is submitted node by node, while workers run
Submit == /\ pc = "submit" /\ ready # <<>>
          /\ LET level == ready
                 sentNow == {level[k] : k \in 1..Len(level)}
                 left2 == [i \in 1..n |-> left[i] - Cardinality({j \in sentNow : j # 1 /\ parent[j] = i})]
             IN /\ queue' = queue \o level /\ sent' = sent \cup sentNow /\ left' = left2
                /\ ready' = SetSeq({i \in Scheduled \ (sent \cup sentNow) : left2[i] = 0})
          /\ pc' = "wait" /\ UNCHANGED <<tree, work, promise, result, evals>>
Wait == /\ pc = "wait" /\ \A i \in sent : promise[i] # <<>>
        /\ pc' = (IF sent = Scheduled THEN "get" ELSE "submit") /\ UNCHANGED <<tree, ready, left, sent, queue, work, promise, result, evals>>
Get == pc = "get" /\ promise[1] # <<>> /\ result' = promise[1] /\ pc' = "end" /\ UNCHANGED <<tree, ready, left, sent, queue, work, promise, evals>>
Take(w) == /\ work[w] = 0 /\ queue # <<>> /\ work' = [work EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
           /\ UNCHANGED <<tree, pc, ready, left, sent, promise, result, evals>>
\* once the promises of the children are set
Eval(w) == LET i == work[w] IN
           /\ i # 0 /\ \A k \in 1..Len(Sched(i)) : promise[Sched(i)[k]] # <<>>
           /\ LET c == Sched(i)
                  thrown == \E k \in 1..Len(c) : promise[c[k]] = <<"exc">>
                  b == Plain[Children(i)[taken[i]]]
                  own == {i} \cup (IF kind[i] = "if" /\ ~thrown THEN b.u ELSE {})
              IN /\ promise' = [promise EXCEPT ![i] = IF thrown \/ i \in boom \/ (kind[i] = "if" /\ b.x) THEN <<"exc">>
                                                     ELSE IF kind[i] = "if" THEN <<"val", <<i, promise[c[1]][2], b.v>>>>
                                                     ELSE <<"val", <<i>> \o [k \in 1..Len(c) |-> promise[c[k]][2]]>>]
                 /\ evals' = [j \in 1..n |-> IF j \in own THEN evals[j] + 1 ELSE evals[j]]
           /\ work' = [work EXCEPT ![w] = 0] /\ UNCHANGED <<tree, pc, ready, left, sent, queue, result>>
Next == Submit \/ Wait \/ Get \/ \E w \in Workers : Take(w) \/ Eval(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Submit \/ Wait \/ Get) /\ \A w \in Workers : WF_vars(Take(w)) /\ WF_vars(Eval(w))
NeverWaits == \A w \in Workers : work[w] # 0 => \A k \in 1..Len(Sched(work[w])) : promise[Sched(work[w])[k]] # <<>>
Once == \A i \in 1..n : evals[i] <= 1
\* (a branch that is not taken is never evaluated: nor is anything else beyond what the value needs, unless something throws)
Needed == pc = "end" => IF Plain[1].x THEN result = <<"exc">> ELSE result = <<"val", Plain[1].v>> /\ \A i \in 1..n : evals[i] = (IF i \in Plain[1].u THEN 1 ELSE 0)
Terminates == <>(pc = "end")
===============================================================================
