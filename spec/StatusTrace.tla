----------------------------- MODULE StatusTrace ------------------------------
(* Is a recorded history of registrations and assignments a behaviour of Status? *)
(* e.shown gives the texts of all objects after the step (once the library is in *)
(* use), as a sequence of <<object, text>>.                                      *)
EXTENDS Status, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Table(t) == [c \in {t[k][1] : k \in 1..Len(t)} |-> LET k == CHOOSE k \in 1..Len(t) : t[k][1] = c IN t[k][2]]
\* texts obtained earlier stay as they were until their code is registered again
Held == \A k \in 1..Len(e.held) : e.held[k][2] \in Texts(e.held[k][1], reg', FALSE)
Shown == Held /\ \A k \in 1..Len(e.shown) : LET o == e.shown[k][1] IN no'[o] = -2 \/ e.shown[k][2] \in Texts(no'[o], reg', TRUE)
Cb(c) == [k |-> c[1], a |-> c[2], x |-> c[3], y |-> c[4]]
Step == \/ e.op = "reset" /\ LET t == Table(e.table) IN
             /\ DOMAIN t = 0..16 /\ \A c \in DOMAIN t : t[c] \notin {"", Placeholder}
             /\ reg' = NoReg /\ dflt' = t /\ used' = FALSE /\ no' = [o \in All |-> IF o \in Objs THEN -2 ELSE -1]
             /\ ctx' = [o \in All |-> ""] /\ log' = <<>> /\ out' = <<>>
        \/ e.op = "reg" /\ Register(e.c, e.i, Cb(e.cb)) /\ Shown
        \/ e.op = "info" /\ InfoOf(e.c, e.o) /\ Shown
        \/ e.op = "find" /\ Found(e.c, e.b) /\ Shown
        \/ e.op = "set" /\ Assign(e.k, e.c) /\ log' = e.log /\ out' = e.printed /\ Shown
        \/ e.op = "new" /\ Create(e.k, e.c) /\ log' = e.log /\ out' = e.printed /\ Shown
        \/ e.op = "move" /\ Move(e.j, e.k) /\ e.log = <<>> /\ Shown
        \/ e.op = "ctx" /\ SetContext(e.k, e.o) /\ e.log = <<>> /\ Shown
        \/ e.op = "getctx" /\ GetContext(e.k, e.o) /\ e.log = <<>> /\ Shown
        \/ e.op = "invoke" /\ Invoke(e.c, e.log) /\ Shown
        \/ e.op = "invokeobj" /\ no[e.k] # -2 /\ Invoke(no[e.k], e.log) /\ Shown
        \/ e.op = "par" /\ Parallel(e.ts, e.seqs, e.logs) /\ Shown
        \/ e.op = "child" /\ Child(e.c, e.exit, e.n) /\ Shown
TraceInit == SInit(NoReg) /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ Print(<<"REJECTED", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
===============================================================================
