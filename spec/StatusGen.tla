------------------------------ MODULE StatusGen -------------------------------
(* All histories of Depth steps of Status over two codes of the library and two  *)
(* of the program, written down for the real code; and laws of the model.        *)
EXTENDS Status, CSV, IOUtils
CONSTANTS Depth
VARIABLE hist
gvars == <<svars, hist>>
Dflt == [c \in {0, 1, 5} |-> "library " \o ToString(c)]
Codes == {1, 5, 40}
S(n) == ToString(n)
H(line) == hist' = Append(hist, line)
CbText(cb) == cb.k \o " " \o S(cb.a) \o " " \o S(cb.x) \o " " \o S(cb.y)
Cbs == {None, Rec(7), [k |-> "chain", a |-> 3, x |-> 101, y |-> 5], [k |-> "rereg", a |-> 4, x |-> 9, y |-> 0]}
Safe(c) == c \in DOMAIN reg \/ (c \in DOMAIN Dflt /\ c # DivBy0)          \* the default callback of a division by zero ends the process
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Codes, cb \in Cbs : (cb.k = "chain" => c # 5) /\ Register(c, "text" \o S(Len(hist)), cb) /\ H("reg p " \o S(c) \o " text" \o S(Len(hist)) \o " " \o CbText(cb))
           \/ \E c \in Codes, o \in {100, 101} : Safe(c) /\ Assign(o, c) /\ H("set p " \o S(o) \o " " \o S(c))
           \/ \E c \in Codes : Safe(c) /\ Create(1, c) /\ H("new p 1 " \o S(c))
           \/ \E c \in Codes : Safe(c) /\ no[1] # -2 /\ Assign(1, c) /\ H("set p 1 " \o S(c))
           \/ \E c \in Codes, t \in {Placeholder, "library 1", "library 5", "text0", "text1", "text2"} : InfoOf(c, t) /\ c \in {1, 40} /\ H("info p " \o S(c))
           \/ Create(1, -1) /\ H("new p 1 -1")
           \/ Move(1, 100) /\ H("move p 1 100")
GInit == SInit(Dflt) /\ hist = <<>>
GSpec == GInit /\ [][Next]_gvars
\* assigning touches one object (and what the callback itself touches); registering none
Isolated == [][/\ (reg' # reg /\ log' = <<>> => no' = no)
               /\ Len(log') <= 2
               /\ \A o \in All : no'[o] # no[o] /\ no'[o] # -2 /\ o # 101 => (\A p \in All \ {o, 101} : no'[p] = no[p] \/ no'[p] = -2)]_gvars
Once == \A c \in DOMAIN reg, o \in All : c # 1 \/ Len(Assigned(reg, no, o, c).l) = (CASE reg[c].c.k = "none" -> 0 [] reg[c].c.k \in {"rec", "rereg"} -> 1 [] OTHER -> Len(Assigned(reg, no, 101, 5).l) + 1)
Kept == [][\A c \in DOMAIN reg : c \in DOMAIN reg' /\ (reg'[c] # reg[c] => hist' # hist)]_gvars
Join(h) == LET F[k \in 0..Len(h)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN ";" ELSE "") \o h[k] IN F[Len(h)]
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<Join(hist)>>, IOEnv.OUT)
===============================================================================
