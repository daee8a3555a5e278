--------------------------------- MODULE Cow -----------------------------------
(* Copy on write, step by step: every thread has two numbers of its own; at first  *)
(* all of them are copies of one original (object 0, which nobody touches), so     *)
(* they share one buffer. A number refers to a buffer; a buffer counts the         *)
(* references to it and is given back when the last one goes. A thread changes one *)
(* of its numbers (look at the count; alone: write in place; else take a buffer,   *)
(* copy, let go of the old one, write), copies one onto the other (count up, let   *)
(* go of the old one), or destroys one. Each access of shared memory is a step.    *)
(* Whatever the interleaving every number has the value its own history gives it,  *)
(* and no buffer is used after it has been given back.                             *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Ops, Alone   \* Alone: the largest count at which a number counts as the only user (1)
Objects == {0} \cup {2 * t - 1 : t \in Threads} \cup {2 * t : t \in Threads}
Owner(o) == (o + 1) \div 2
Buffers == 1..(Cardinality(Objects) + Cardinality(Threads))
VARIABLES ref, cnt, mem, free, val, pc, obj, from, tmp, old, left
vars == <<ref, cnt, mem, free, val, pc, obj, from, tmp, old, left>>
\* ref[o]: buffer (0: destroyed); val[o]: what the history of o demands
Init == /\ ref = [o \in Objects |-> 1] /\ cnt = [b \in Buffers |-> IF b = 1 THEN Cardinality(Objects) ELSE 0] /\ mem = [b \in Buffers |-> 0]
        /\ free = Buffers \ {1} /\ val = [o \in Objects |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ obj = [t \in Threads |-> 0] /\ from = obj /\ tmp = obj /\ old = obj /\ left = [t \in Threads |-> Ops]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Set(f, t, x) == [f EXCEPT ![t] = x]
Mine(t) == {o \in Objects : Owner(o) = t /\ o # 0 /\ ref[o] # 0}
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<ref, cnt, mem, free, tmp, old>>
            /\ \/ \E o \in Mine(t) : obj' = Set(obj, t, o) /\ val' = [val EXCEPT ![o] = @ + t] /\ Go(t, "look") /\ UNCHANGED from          \* change
               \/ \E o \in Mine(t), s \in Mine(t) : o # s /\ obj' = Set(obj, t, o) /\ from' = Set(from, t, s) /\ val' = [val EXCEPT ![o] = val[s]] /\ Go(t, "up")
               \/ \E o \in Mine(t) : obj' = Set(obj, t, o) /\ Go(t, "destroy") /\ UNCHANGED <<from, val>>
\* change
Look(t) == /\ pc[t] = "look" /\ Go(t, IF cnt[ref[obj[t]]] <= Alone THEN "write" ELSE "alloc") /\ UNCHANGED <<ref, cnt, mem, free, val, obj, from, tmp, old, left>>
Alloc(t) == /\ pc[t] = "alloc" /\ LET b == CHOOSE b \in free : TRUE IN tmp' = Set(tmp, t, b) /\ free' = free \ {b} /\ cnt' = [cnt EXCEPT ![b] = 1]
            /\ Go(t, "fill") /\ UNCHANGED <<ref, mem, val, obj, from, old, left>>
Fill(t) == /\ pc[t] = "fill" /\ mem' = [mem EXCEPT ![tmp[t]] = mem[ref[obj[t]]]] /\ Go(t, "install") /\ UNCHANGED <<ref, cnt, free, val, obj, from, tmp, old, left>>
Install(t) == /\ pc[t] = "install" /\ old' = Set(old, t, ref[obj[t]]) /\ ref' = [ref EXCEPT ![obj[t]] = tmp[t]] /\ Go(t, "drop") /\ UNCHANGED <<cnt, mem, free, val, obj, from, tmp, left>>
\* letting go: the count goes down in one step, which tells whether it was the last
Drop(t) == /\ pc[t] \in {"drop", "dropend"} /\ cnt' = [cnt EXCEPT ![old[t]] = @ - 1]
           /\ Go(t, IF cnt[old[t]] = 1 THEN (IF pc[t] = "drop" THEN "give" ELSE "giveend") ELSE IF pc[t] = "drop" THEN "write" ELSE "idle")
           /\ UNCHANGED <<ref, mem, free, val, obj, from, tmp, old, left>>
Give(t) == /\ pc[t] \in {"give", "giveend"} /\ free' = free \cup {old[t]} /\ mem' = [mem EXCEPT ![old[t]] = -1] /\ Go(t, IF pc[t] = "give" THEN "write" ELSE "idle")
           /\ UNCHANGED <<ref, cnt, val, obj, from, tmp, old, left>>
Write(t) == /\ pc[t] = "write" /\ mem' = [mem EXCEPT ![ref[obj[t]]] = @ + t] /\ Go(t, "idle") /\ UNCHANGED <<ref, cnt, free, val, obj, from, tmp, old, left>>
\* copy
Up(t) == /\ pc[t] = "up" /\ cnt' = [cnt EXCEPT ![ref[from[t]]] = @ + 1] /\ Go(t, "rebind") /\ UNCHANGED <<ref, mem, free, val, obj, from, tmp, old, left>>
Rebind(t) == /\ pc[t] = "rebind" /\ old' = Set(old, t, ref[obj[t]]) /\ ref' = [ref EXCEPT ![obj[t]] = ref[from[t]]] /\ Go(t, "dropend") /\ UNCHANGED <<cnt, mem, free, val, obj, from, tmp, left>>
Destroy(t) == /\ pc[t] = "destroy" /\ old' = Set(old, t, ref[obj[t]]) /\ ref' = [ref EXCEPT ![obj[t]] = 0] /\ Go(t, "dropend") /\ UNCHANGED <<cnt, mem, free, val, obj, from, tmp, left>>
Next == \E t \in Threads : Begin(t) \/ Look(t) \/ Alloc(t) \/ Fill(t) \/ Install(t) \/ Drop(t) \/ Give(t) \/ Write(t) \/ Up(t) \/ Rebind(t) \/ Destroy(t)
Spec == Init /\ [][Next]_vars
Busy(o) == o # 0 /\ pc[Owner(o)] # "idle" /\ obj[Owner(o)] = o
Values == \A o \in Objects : ref[o] # 0 /\ ~Busy(o) => mem[ref[o]] = val[o]
NotGivenBack == \A o \in Objects : ref[o] # 0 => ref[o] \notin free
Counts == \A b \in Buffers : b \notin free => cnt[b] >= Cardinality({o \in Objects : ref[o] = b})
NoLeak == (\A t \in Threads : pc[t] = "idle") => \A b \in Buffers : b \in free <=> \A o \in Objects : ref[o] # b
===============================================================================
