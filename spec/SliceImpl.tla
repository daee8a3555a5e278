------------------------------ MODULE SliceImpl ------------------------------
(***************************************************************************)
(* The design of Slice.h: a slice is a window lo..hi of a growable vector   *)
(* that copies share.  Checked: this refines SliceSpec, whatever slack the   *)
(* vectors have in front of and behind the windows.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Depth
VARIABLES vec, ref, lo, hi,      \* vectors by name; which vector, and which part of it, a slice shows
          unk,                   \* slices the specification promises nothing about (history variable)
          steps
ivars == <<vec, ref, lo, hi, unk, steps>>
Names == 0..Cardinality(Slots)
Pre == 1
Zeros(n) == [j \in 1..n |-> 0]
Users(r) == {k \in Slots : ref[k] = r}
FreshName == CHOOSE n \in Names : Users(n) = {}
Resize(v, n) == [j \in 1..n |-> IF j <= Len(v) THEN v[j] ELSE 0]
Content(k) == SubSeq(vec[ref[k]], lo[k] + 1, hi[k])
Cnt(k) == hi[k] - lo[k]

IInit == /\ vec = [n \in Names |-> Zeros(2 * Pre)] /\ ref = [k \in Slots |-> k]
         /\ lo = [k \in Slots |-> Pre] /\ hi = [k \in Slots |-> Pre] /\ unk = {} /\ steps = 0

\* in-place change of slice k: its vector and window become v, l, h
Change(k, v, l, h, touch) == /\ vec' = [vec EXCEPT ![ref[k]] = v] /\ lo' = [lo EXCEPT ![k] = l] /\ hi' = [hi EXCEPT ![k] = h]
                             /\ unk' = (IF touch THEN unk \cup (Users(ref[k]) \ {k}) ELSE unk) /\ UNCHANGED ref
New(k, v, l, h) == LET n == FreshName IN
                   /\ vec' = [vec EXCEPT ![n] = v] /\ ref' = [ref EXCEPT ![k] = n]
                   /\ lo' = [lo EXCEPT ![k] = l] /\ hi' = [hi EXCEPT ![k] = h] /\ unk' = unk \ {k}
V(k) == vec[ref[k]]
Ok(k) == k \notin unk
AppendI(k, x) == Ok(k) /\ IF hi[k] < Len(V(k)) THEN Change(k, [V(k) EXCEPT ![hi[k] + 1] = x], lo[k], hi[k] + 1, TRUE)
                          ELSE Change(k, Append(V(k), x), lo[k], hi[k] + 1, TRUE)
PrependI(k, x) == Ok(k) /\ IF lo[k] > 0 THEN Change(k, [V(k) EXCEPT ![lo[k]] = x], lo[k] - 1, hi[k], TRUE)
                           ELSE Change(k, <<x>> \o V(k), lo[k], hi[k] + 1, TRUE)
Fill(v, l, n, x) == [j \in 1..Len(v) |-> IF j > l /\ j <= l + n THEN x ELSE v[j]]
PreExtendI(k, n, x) == Ok(k) /\ IF lo[k] >= n THEN Change(k, Fill(V(k), lo[k] - n, n, x), lo[k] - n, hi[k], TRUE)
                                ELSE LET ex == n - lo[k] + Pre IN
                                     Change(k, Fill([j \in 1..ex |-> x] \o V(k), Pre, n, x), Pre, hi[k] + ex, TRUE)
SliceI(k, a, b) == Ok(k) /\ IF a = b THEN Change(k, V(k), lo[k], lo[k], FALSE)
                            ELSE LET v == IF b > Cnt(k) THEN Resize(Resize(V(k), hi[k]), lo[k] + b) ELSE V(k)
                                 IN Change(k, v, lo[k] + a, lo[k] + b, b > Cnt(k))
SetI(k, i, x) == Ok(k) /\ i < Cnt(k) /\ Change(k, [V(k) EXCEPT ![lo[k] + i + 1] = x], lo[k], hi[k], TRUE)
CloneI(k) == Ok(k) /\ IF Users(ref[k]) = {k} THEN UNCHANGED <<vec, ref, lo, hi, unk>>
                      ELSE New(k, Zeros(Pre) \o Content(k), Pre, Pre + Cnt(k))
CopyI(k, j) == Ok(j) /\ ref' = [ref EXCEPT ![k] = ref[j]] /\ lo' = [lo EXCEPT ![k] = lo[j]] /\ hi' = [hi EXCEPT ![k] = hi[j]]
                     /\ unk' = unk \ {k} /\ UNCHANGED vec
MoveI(k, j) == Ok(j) /\ j # k /\ LET n == CHOOSE m \in Names : Users(m) \subseteq {k} IN
               /\ vec' = [vec EXCEPT ![n] = Zeros(2 * Pre)] /\ ref' = [ref EXCEPT ![k] = ref[j], ![j] = n]
               /\ lo' = [lo EXCEPT ![k] = lo[j], ![j] = Pre] /\ hi' = [hi EXCEPT ![k] = hi[j], ![j] = Pre] /\ unk' = unk \ {k}
Lens == {k \in Slots : TRUE}
INext == /\ steps < Depth /\ steps' = steps + 1
         /\ \E k, j \in Slots :
              \/ New(k, Zeros(2 * Pre), Pre, Pre) \/ New(k, <<7, 8, 9>>, 1, 2)
              \/ AppendI(k, 4) \/ PrependI(k, 5) \/ \E n \in {0, 1, 2, 3} : PreExtendI(k, n, 6)
              \/ \E a \in 0..2, b \in 0..4 : a <= b /\ SliceI(k, a, b)
              \/ SetI(k, 0, 3) \/ CloneI(k) \/ CopyI(k, j) \/ MoveI(k, j)
ISpec == IInit /\ [][INext]_ivars

\* windows of known slices lie inside their vectors
Inv == \A k \in Slots : Ok(k) => 0 <= lo[k] /\ lo[k] <= hi[k] /\ hi[k] <= Len(V(k))

S == INSTANCE SliceSpec WITH val <- [k \in Slots |-> IF k \in unk THEN <<-9>> ELSE Content(k)], grp <- ref, out <- <<>>
SameGroups(r1, r2) == \A i, j \in Slots : (r1[i] = r1[j]) = (r2[i] = r2[j])
\* every step of the design is a step of the specification, up to the names of the vectors
AbsNext == \E k, j \in Slots :
             LET val1 == [i \in Slots |-> IF i \in unk THEN <<-9>> ELSE Content(i)]
                 val2 == [i \in Slots |-> IF i \in unk' THEN <<-9>> ELSE SubSeq(vec'[ref'[i]], lo'[i] + 1, hi'[i])]
                 Sh(i) == {m \in Slots \ {i} : ref[m] = ref[i]}
                 PutA(s, touch) == val2 = [i \in Slots |-> IF i = k THEN s ELSE IF touch /\ ref[i] = ref[k] THEN <<-9>> ELSE val1[i]] /\ ref' = ref
                 OwnA(s) == val2 = [val1 EXCEPT ![k] = s] /\ \A i \in Slots \ {k} : ref'[i] = ref[i] /\ ref'[k] # ref[i]
                 c == val1[k]
             IN \/ OwnA(<<>>) \/ OwnA(<<8>>)
                \/ PutA(Append(c, 4), TRUE) \/ PutA(<<5>> \o c, TRUE) \/ \E n \in 0..3 : PutA(S!Rep(n, 6) \o c, TRUE)
                \/ \E a \in 0..2, b \in 0..4 : a <= b /\ PutA(S!Window(c, a, b), a < b /\ b > Len(c))
                \/ (Len(c) > 0 /\ PutA([c EXCEPT ![1] = 3], TRUE))
                \/ (Sh(k) # {} /\ OwnA(c)) \/ (Sh(k) = {} /\ val2 = val1 /\ ref' = ref)
                \/ (val2 = [val1 EXCEPT ![k] = val1[j]] /\ ref' = [ref EXCEPT ![k] = ref[j]])
                \/ (k # j /\ val2 = [val1 EXCEPT ![k] = val1[j], ![j] = <<>>] /\ ref'[k] = ref[j] /\ \A i \in Slots \ {k, j} : ref'[i] = ref[i] /\ ref'[j] # ref[i])
Refines == [][AbsNext]_ivars
==============================================================================
