-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* Streams reading texts.  Sources hold texts (sequences of byte values,     *)
(* 0 allowed); a stream reads either a source in place or a copy of its own. *)
(* Changing or destroying a source leaves the streams that read it in place  *)
(* without a specified value ("lost") until they are assigned or destroyed;  *)
(* so does moving from a stream for the stream moved from.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Sources, Slots
VARIABLES src, str
stvars == <<src, str>>
None == [s |-> "none", own |-> FALSE, of |-> 0, t |-> <<>>, pos |-> 0]
Lost == [s |-> "lost", own |-> FALSE, of |-> 0, t |-> <<>>, pos |-> 0]
Init == src = [k \in Sources |-> <<>>] /\ str = [k \in Slots |-> None]
\* as a C string a text ends before its first 0
RECURSIVE CStr(_)
CStr(t) == IF t = <<>> \/ t[1] = 0 THEN <<>> ELSE <<t[1]>> \o CStr(Tail(t))
Lose(s, k) == [x \in Slots |-> IF s[x].s = "on" /\ ~s[x].own /\ s[x].of = k THEN Lost ELSE s[x]]
\* the program gives source k a new text (the old one is gone)
Text(k, t) == src' = [src EXCEPT ![k] = t] /\ str' = Lose(str, k)
\* a stream over source j: as a C string or not, with a copy of its own or not
New(k, j, c, own) == str[k].s = "none" /\ str' = [str EXCEPT ![k] = [s |-> "on", own |-> own, of |-> j, t |-> IF c THEN CStr(src[j]) ELSE src[j], pos |-> 0]] /\ UNCHANGED src
\* a temporary stream over source j, assigned
Set(k, j, c, own) == str[k].s # "none" /\ str' = [str EXCEPT ![k] = [s |-> "on", own |-> own, of |-> j, t |-> IF c THEN CStr(src[j]) ELSE src[j], pos |-> 0]] /\ UNCHANGED src
Del(k) == str[k].s # "none" /\ str' = [str EXCEPT ![k] = None] /\ UNCHANGED src
\* move construction (k does not exist before), move assignment (it does; onto itself nothing happens)
Make(k, j) == k # j /\ str[k].s = "none" /\ str[j].s # "none" /\ str' = [str EXCEPT ![k] = str[j], ![j] = Lost] /\ UNCHANGED src
Move(k, j) == str[k].s # "none" /\ str[j].s # "none" /\ UNCHANGED src
              /\ str' = IF k = j THEN str ELSE [str EXCEPT ![k] = str[j], ![j] = Lost]
\* n characters are taken; the characters obtained
Eof(x) == x.pos = Len(x.t)
Peek(x) == IF Eof(x) THEN 0 ELSE x.t[x.pos + 1]
After(x, n) == [x EXCEPT !.pos = IF x.pos + n > Len(x.t) THEN Len(x.t) ELSE x.pos + n]
Got(x, n) == [i \in 1..n |-> IF x.pos + i > Len(x.t) THEN 0 ELSE x.t[x.pos + i]]
Get(k, n) == str[k].s = "on" /\ str' = [str EXCEPT ![k] = After(str[k], n)] /\ UNCHANGED src
Do(op, k, j, c, own, n, t) ==
    CASE op = "text" -> Text(k, t)
      [] op = "new" -> New(k, j, c, own)
      [] op = "set" -> Set(k, j, c, own)
      [] op = "del" -> Del(k)
      [] op = "make" -> Make(k, j)
      [] op = "move" -> Move(k, j)
      [] op = "get" -> Get(k, n)
TypeOK == \A k \in Slots : str[k].s \in {"none", "lost", "on"} /\ str[k].pos \in 0..Len(str[k].t)
\* a stream reading in place reads the present text of its source
InPlace == \A k \in Slots : str[k].s = "on" /\ ~str[k].own => str[k].t \in {src[str[k].of], CStr(src[str[k].of])}
===============================================================================
