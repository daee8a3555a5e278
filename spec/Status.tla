-------------------------------- MODULE Status --------------------------------
(* Status codes: a process-wide registry (code -> text, callback), status        *)
(* objects, and one global status per thread.                                    *)
(*   reg     what the program has registered: code -> [i: text, c: callback]     *)
(*   dflt    the library's own registrations: code -> text; its callbacks print  *)
(*           the text, for a division by zero also end the process, for success  *)
(*           do nothing                                                          *)
(*   used    the library has been used (before that its own registrations may    *)
(*           or may not be there)                                                *)
(*   no      object -> code, -1 nothing assigned yet, -2 no such object or       *)
(*           moved from; the global status of thread t is the object 100 + t     *)
(*   ctx     object -> context, "" unknown                                       *)
(* A callback is [k, a, x, y]:  none | rec (notes its argument a) | chain (notes *)
(* a and assigns code y to object x) | rereg (notes a and registers its own code *)
(* anew with text "again" and a rec callback with argument x) | fresh (notes a   *)
(* and registers the unused code y).                                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Objs, Threads
VARIABLES reg, dflt, used, no, ctx, log, out
svars == <<reg, dflt, used, no, ctx, log, out>>
Placeholder == "<ERROR_INFO>"
DivBy0 == 1
Globals == {100 + t : t \in Threads}
All == Objs \cup Globals
None == [k |-> "none", a |-> 0, x |-> 0, y |-> 0]
Rec(a) == [k |-> "rec", a |-> a, x |-> 0, y |-> 0]
NoReg == [c \in {} |-> 0]
SInit(table) == /\ reg = NoReg /\ dflt = table /\ used = FALSE /\ no = [o \in All |-> IF o \in Objs THEN -2 ELSE -1]
                /\ ctx = [o \in All |-> ""] /\ log = <<>> /\ out = <<>>
\* texts a code may show
Texts(c, r, u) == IF c < 0 THEN {Placeholder} ELSE IF c \in DOMAIN r THEN {r[c].i}
                  ELSE IF c \in DOMAIN dflt THEN (IF u THEN {dflt[c]} ELSE {dflt[c], Placeholder}) ELSE {Placeholder}
Known(c) == c \in DOMAIN reg \/ c \in DOMAIN dflt
With(r, c, i, cb) == [d \in DOMAIN r \cup {c} |-> IF d = c THEN [i |-> i, c |-> cb] ELSE r[d]]

\* assigning code c to object o: <<registry, codes, what the callbacks noted, what the library printed>> afterwards
RECURSIVE Assigned(_, _, _, _)
Assigned(r, n, o, c) ==
  LET m == [n EXCEPT ![o] = c] IN
  IF c \notin DOMAIN r THEN [r |-> r, n |-> m, l |-> <<>>, p |-> IF c = 0 THEN <<>> ELSE <<c>>]
  ELSE LET cb == r[c].c IN
       CASE cb.k = "none" -> [r |-> r, n |-> m, l |-> <<>>, p |-> <<>>]
         [] cb.k = "rec" -> [r |-> r, n |-> m, l |-> <<cb.a>>, p |-> <<>>]
         [] cb.k = "chain" -> LET z == Assigned(r, m, cb.x, cb.y) IN [z EXCEPT !.l = <<cb.a>> \o @]
         [] cb.k = "rereg" -> [r |-> With(r, c, "again", Rec(cb.x)), n |-> m, l |-> <<cb.a>>, p |-> <<>>]
         [] cb.k = "fresh" -> [r |-> With(r, cb.y, "fresh", Rec(cb.x)), n |-> m, l |-> <<cb.a>>, p |-> <<>>]

Quiet == log' = <<>> /\ UNCHANGED dflt
Register(c, i, cb) == /\ reg' = With(reg, c, i, cb) /\ out' = <<>> /\ Quiet /\ UNCHANGED <<used, no, ctx>>
\* texts: a registered code shows its text, an unknown one the placeholder
InfoOf(c, t) == t \in Texts(c, reg, used) /\ out' = <<t>> /\ Quiet /\ UNCHANGED <<reg, used, no, ctx>>
Found(c, b) == /\ (c \in DOMAIN reg => b) /\ (~Known(c) => ~b) /\ (used /\ Known(c) => b)
               /\ out' = <<b>> /\ Quiet /\ UNCHANGED <<reg, used, no, ctx>>
Set(o, c, created) ==
  /\ Known(c) /\ (o \in Objs => created \/ no[o] # -2)
  /\ LET z == Assigned(reg, no, o, c) IN
     /\ reg' = z.r /\ no' = z.n /\ log' = z.l /\ out' = z.p
     /\ ctx' = [x \in All |-> IF x = o \/ z.n[x] # no[x] \/ (c \in DOMAIN reg /\ reg[c].c.k = "chain" /\ reg[c].c.x = x) THEN "" ELSE ctx[x]]
  /\ used' = TRUE /\ UNCHANGED dflt
Assign(o, c) == Set(o, c, FALSE)
Create(o, c) == IF c = -1 THEN no' = [no EXCEPT ![o] = -1] /\ ctx' = [ctx EXCEPT ![o] = ""] /\ out' = <<>> /\ Quiet /\ UNCHANGED <<reg, used>>
                ELSE Set(o, c, TRUE)
Move(o, p) == /\ no[o] # -2 /\ o # p
              /\ no' = [no EXCEPT ![p] = no[o], ![o] = IF o \in Objs THEN -2 ELSE @] /\ ctx' = [ctx EXCEPT ![p] = ctx[o], ![o] = ""]
              /\ used' = (used \/ o \in Globals \/ p \in Globals) /\ out' = <<>> /\ Quiet /\ UNCHANGED reg
SetContext(o, x) == no[o] # -2 /\ ctx' = [ctx EXCEPT ![o] = x] /\ used' = (used \/ o \in Globals) /\ out' = <<>> /\ Quiet /\ UNCHANGED <<reg, no>>
GetContext(o, x) == no[o] # -2 /\ ctx[o] \in {"", x} /\ out' = <<x>> /\ used' = (used \/ o \in Globals) /\ Quiet /\ UNCHANGED <<reg, no, ctx>>
\* invoking the callback of a code, or of the code of an object, by hand
Invoke(c, l) == /\ c \in DOMAIN reg => reg[c].c.k \in {"none", "rec"} /\ l = (IF reg[c].c.k = "none" THEN <<>> ELSE <<reg[c].c.a>>)
                /\ ~Known(c) => l = <<>>
                /\ log' = l /\ out' = <<>> /\ UNCHANGED <<reg, dflt, used, no, ctx>>
\* the threads assign their sequences of codes to their own global statuses at the same time
Parallel(ts, seqs, logs) ==
  /\ \A k \in 1..Len(ts) : \A j \in 1..Len(seqs[k]) : seqs[k][j] \in DOMAIN reg /\ reg[seqs[k][j]].c.k \in {"none", "rec"}
  /\ \A k \in 1..Len(ts) : LET F[j \in 0..Len(seqs[k])] == IF j = 0 THEN <<>> ELSE F[j - 1] \o (IF reg[seqs[k][j]].c.k = "rec" THEN <<reg[seqs[k][j]].c.a>> ELSE <<>>)
                           IN logs[k] = F[Len(seqs[k])]
  /\ no' = [o \in All |-> IF \E k \in 1..Len(ts) : o = 100 + ts[k] /\ seqs[k] # <<>> THEN LET k == CHOOSE k \in 1..Len(ts) : o = 100 + ts[k] IN seqs[k][Len(seqs[k])] ELSE no[o]]
  /\ used' = TRUE /\ log' = <<>> /\ out' = <<>> /\ ctx' = [o \in All |-> IF no'[o] # no[o] THEN "" ELSE ctx[o]] /\ UNCHANGED <<reg, dflt>>
\* in a child process: code c is assigned without the program having registered it
Child(c, exit, printed) == /\ c \in DOMAIN dflt /\ c \notin DOMAIN reg
                           /\ (c = DivBy0) = (exit # 0) /\ printed = (IF c = 0 THEN 0 ELSE 1)
                           /\ UNCHANGED <<reg, dflt, used, no, ctx>> /\ log' = <<>> /\ out' = <<>>
\* what is shown of the objects after a step
Shows(t) == \A o \in All : no'[o] = -2 \/ t[o] \in Texts(no'[o], reg', TRUE)
SType == \A o \in All : no[o] \in -2..2147483647
===============================================================================
