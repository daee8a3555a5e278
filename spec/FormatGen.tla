------------------------------- MODULE FormatGen -------------------------------
(* All short format texts over the characters that matter, written down if their *)
(* result is specified; laws: a text without brackets is left alone, formatting   *)
(* the parts of a text gives the parts of the result.                            *)
EXTENDS Format, TLC, CSV, IOUtils
CONSTANTS Alphabet, MaxLen, NArgs
VARIABLE f
Args == SubSeq(<<[t |-> "s", v |-> <<113, 123, 49>>], [t |-> "i", v |-> "-2a"], [t |-> "u", v |-> "7"]>>, 1, NArgs)
Init == f = <<>>
Next == Len(f) < MaxLen /\ \E c \in Alphabet : f' = Append(f, c)
Plain == (123 \notin {f[k] : k \in 1..Len(f)}) => Format(f, Args) = f
Closed(a) == LET ps == Places(a, 1) IN Find(a, 123, IF ps = <<>> THEN 1 ELSE ps[Len(ps)][2] + 1) = 0
Parts == Specified(f, Args) => \A k \in 1..Len(f) :
            LET a == SubSeq(f, 1, k)  b == SubSeq(f, k + 1, Len(f)) IN
            Closed(a) /\ Specified(a, Args) /\ Specified(b, Args) => Format(f, Args) = Format(a, Args) \o Format(b, Args)
Out == IOEnv.OUT
Hex(s) == LET H == "0123456789abcdef" F[k \in 0..Len(s)] == IF k = 0 THEN "" ELSE F[k - 1] \o SubSeq(H, s[k] \div 16 + 1, s[k] \div 16 + 1) \o SubSeq(H, (s[k] % 16) + 1, (s[k] % 16) + 1) IN F[Len(s)]
Emit == Specified(f, Args) => CSVWrite("%1$s", <<Hex(f)>>, Out)
===============================================================================
