------------------------------- MODULE ExprGen --------------------------------
(* Laws of the language of Expr, on all texts up to Depth tokens (characters)   *)
(* of an alphabet and on all small syntax trees; every text is written down for *)
(* the real code.                                                               *)
EXTENDS Expr, TLC, CSV, IOUtils
CONSTANTS Mode, Depth, LeafVals
VARIABLES seq, tree

F1 == [k |-> "fun", v |-> "neg", n |-> 1]  F2 == [k |-> "fun", v |-> "max2", n |-> 2]
FD == [k |-> "fun", v |-> "sum", n |-> -1] F0 == [k |-> "fun", v |-> "nine", n |-> 0]  FT == [k |-> "fun", v |-> "tick", n |-> 1]
\* f g h m t K B_   (B_ is registered but is neither a function nor a value)
Table == [x \in {<<102>>, <<103>>, <<104>>, <<109>>, <<116>>, <<75>>, <<66, 95>>} |->
            CASE x = <<102>> -> F1 [] x = <<103>> -> FD [] x = <<104>> -> F0 [] x = <<109>> -> F2 [] x = <<116>> -> FT
              [] x = <<75>> -> [k |-> "con", v |-> "ffffffffffffffff", n |-> 0] [] x = <<66, 95>> -> [k |-> "bad", v |-> "0", n |-> 0]]

Ops == Two \cup {<<c>> : c \in OneChar}
Alphabet == CASE Mode = "all" -> Ops \cup {<<49>>, <<48, 120, 50>>, <<102>>, <<75>>, <<113>>, <<61>>, <<36>>, <<48, 57>>}
              [] Mode = "calls" -> {<<102>>, <<103>>, <<104>>, <<109>>, <<40>>, <<41>>, <<44>>, <<49>>, <<42>>}
              [] Mode = "cond" -> {<<49>>, <<48>>, <<63>>, <<58>>, <<40>>, <<41>>, <<43>>, <<116>>}
              [] Mode = "chars" -> {<<c>> : c \in {48, 49, 51, 54, 57, 97, 122, 88, 120, 46, 95, 61, 33, 32, 0}}
              [] OTHER -> {}
Sep == IF Mode = "chars" THEN <<>> ELSE <<32>>
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)

-------------------------------------------------------------------------------
(* printing of trees: with parentheses only where the grammar needs them, and everywhere *)
OpBytes(o) == CHOOSE s \in Ops : OpName(s) = o
LevelOf(o) == BinLevel[o]
Prec(n) == CASE n.k = "if" -> 0 [] n.k = "bin" -> LevelOf(n.o) [] n.k = "un" -> (IF n.o = "!" THEN 11 ELSE 10) [] OTHER -> 12
FunName(f) == CHOOSE x \in DOMAIN Table : Table[x] = f
Paren(t) == <<<<40>>>> \o t \o <<<<41>>>>
RECURSIVE Min(_, _), Args(_)
Min(n, p) ==
  LET t == CASE n.k = "num" -> <<<<48 + ZToInt(n.v)>>>>
             [] n.k = "un" -> (IF n.o = "!" THEN Min(n.a, 11) \o <<<<33>>>> ELSE <<OpBytes(n.o)>> \o Min(n.a, 10))
             [] n.k = "bin" -> Min(n.a, LevelOf(n.o)) \o <<OpBytes(n.o)>> \o Min(n.b, LevelOf(n.o) + 1)
             [] n.k = "if" -> Min(n.c, 1) \o <<<<63>>>> \o Min(n.a, 0) \o <<<<58>>>> \o Min(n.b, 0)
             [] n.k = "call" -> <<FunName(n.f), <<40>>>> \o Args(n.args) \o <<<<41>>>>
  IN IF Prec(n) < p THEN Paren(t) ELSE t
Args(ns) == IF ns = <<>> THEN <<>> ELSE IF Len(ns) = 1 THEN Min(ns[1], 0) ELSE Min(ns[1], 0) \o <<<<44>>>> \o Args(Tail(ns))
RECURSIVE Full(_)
Full(n) == Paren(CASE n.k = "num" -> Min(n, 0)
                   [] n.k = "un" -> (IF n.o = "!" THEN Full(n.a) \o <<<<33>>>> ELSE <<OpBytes(n.o)>> \o Full(n.a))
                   [] n.k = "bin" -> Full(n.a) \o <<OpBytes(n.o)>> \o Full(n.b)
                   [] n.k = "if" -> Full(n.c) \o <<<<63>>>> \o Full(n.a) \o <<<<58>>>> \o Full(n.b)
                   [] n.k = "call" -> Min(n, 0))

-------------------------------------------------------------------------------
(* trees *)
Num(v) == [k |-> "num", v |-> ZOfInt(v)]
Leaf == {Num(v) : v \in LeafVals}
BinNames == UNION {Levels[l] : l \in 1..9}
UnNames == Prefix \cup {"!"}
Bin(o, a, b) == [k |-> "bin", o |-> o, a |-> a, b |-> b]
Un(o, a) == [k |-> "un", o |-> o, a |-> a]
If(c, a, b) == [k |-> "if", c |-> c, a |-> a, b |-> b]
Call(f, args) == [k |-> "call", f |-> f, args |-> args]
\* the trees whose top or inner operator is o
IsTree(t, o) ==
  \/ \E o2 \in BinNames, a, b, c \in Leaf : t = Bin(o, Bin(o2, a, b), c) \/ t = Bin(o, a, Bin(o2, b, c))
  \/ \E u \in UnNames, a, b \in Leaf : t = Bin(o, Un(u, a), b) \/ t = Bin(o, a, Un(u, b)) \/ t = Un(u, Bin(o, a, b))
  \/ \E u, u2, u3 \in UnNames, a \in Leaf : t = Un(u, Un(u2, a)) \/ t = Un(u, Un(u2, Un(u3, a)))
  \/ \E a, b, c \in Leaf : t = Bin(o, If(a, b, c), a) \/ t = Bin(o, a, If(b, c, a)) \/ t = If(Bin(o, a, b), c, a) \/ t = If(a, Bin(o, b, c), b) \/ t = If(a, b, Bin(o, c, b)) \/ t = Call(FD, <<a, Bin(o, b, c), c>>) \/ t = Bin(o, Call(F2, <<a, b>>), c)
  \/ \E u \in UnNames, a, b, c \in Leaf : t = Un(u, If(a, b, c)) \/ t = If(Un(u, a), b, c) \/ t = If(a, Call(FT, <<Un(u, b)>>), Call(FT, <<c>>))
  \/ \E a, b, c, d \in Leaf : t = If(If(a, b, c), d, a) \/ t = If(a, If(b, c, d), a) \/ t = If(a, b, If(c, d, a))
  \/ \E a, b \in Leaf : t = Call(F1, <<Call(F2, <<a, b>>)>>) \/ t = Call(FD, <<>>) \/ t = Call(FD, <<Call(F0, <<>>), a>>)

-------------------------------------------------------------------------------
None == [k |-> "none"]
GInit == /\ XInit /\ seq = <<>>
         /\ tree = None
GNext == \/ Mode = "trees" /\ seq = <<>> /\ \E o \in BinNames : seq' = <<o>> /\ UNCHANGED <<xvars, tree>>
         \/ Mode = "trees" /\ seq # <<>> /\ tree = None /\ IsTree(tree', seq[1]) /\ UNCHANGED <<xvars, seq>>
         \/ Mode = "families" /\ seq = <<>> /\ \E f \in 1..19, n \in 0..Depth : seq' = <<f, n>> /\ (f = 5 => n <= 4) /\ UNCHANGED <<xvars, tree>>
         \/ /\ Mode \notin {"trees", "families"} /\ Len(seq) < Depth /\ \E x \in Alphabet : seq' = Append(seq, x)
            /\ UNCHANGED <<xvars, tree>>
P(c) == Parse(c, Table)
Laws ==
  IF Mode = "trees"
  THEN tree = None \/ LET a == P(Join(Min(tree, 0), <<32>>))  b == P(Join(Full(tree), <<>>)) IN a.e = 0 /\ a.n = tree /\ b.e = 0 /\ b.n = tree
  ELSE IF Mode = "families"
  THEN seq = <<>> \/ LET x == P(FamilyText(seq[1], seq[2])) IN x.e = FamilyError(seq[1], seq[2]) /\ (x.e = 0 => Eval(x.n) = FamilyValue(seq[1], seq[2]))
  ELSE LET x == P(Join(seq, Sep)) IN
       /\ x.e \in {0, BadChar, NotDec, Undefined, BadSymbol, BadRadix, BadLiteral, BadEqu, BadToken, BadCall}
       /\ x.e = 0 => P(Join(seq, <<10, 9>> \o Sep)).e \in (IF Mode = "chars" THEN 0..16 ELSE {0})
       /\ (Mode # "chars" => P(Join(seq, <<0, 13>>)) = x)                              \* any white space separates
       /\ (x.e = 0 => seq # <<>>)                                                      \* the empty text is no expression
       /\ (x.e = 0 => P(Join(Paren(seq), Sep)).e = 0 /\ P(Join(Paren(seq), Sep)).n = x.n)
       /\ (x.e \in {BadChar, NotDec, Undefined, BadSymbol, BadRadix, BadLiteral, BadEqu} /\ Mode # "chars" => P(Join(Append(seq, <<49>>), Sep)).e = x.e) \* the first error is reported
RECURSIVE Hex(_)
HexDigits == "0123456789abcdef"
HexByte(b) == SubSeq(HexDigits, b \div 16 + 1, b \div 16 + 1) \o SubSeq(HexDigits, (b % 16) + 1, (b % 16) + 1)
Hex(c) == IF c = <<>> THEN "" ELSE HexByte(c[1]) \o Hex(Tail(c))
Write(c) == CSVWrite("%1$s", <<Hex(c)>>, IOEnv.OUT)
Emit == IF Mode = "families" THEN TRUE ELSE IF Mode = "trees" THEN tree = None \/ (Write(Join(Min(tree, 0), <<32>>)) /\ Write(Join(Full(tree), <<>>)))
        ELSE Write(Join(seq, Sep)) 
===============================================================================
