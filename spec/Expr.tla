--------------------------------- MODULE Expr ---------------------------------
(* Infix expressions: texts, tokens, syntax trees and their values.             *)
(* A text is a sequence of bytes (numbers).  A number is a canonical hexadecimal*)
(* numeral (module Z).  Nothing here follows the order in which eval.cpp works. *)
EXTENDS Integers, Sequences, FiniteSets, Z

(* the kinds of errors *)
Success == 0  DivBy0 == 1  BadChar == 8  NotDec == 9  Undefined == 10  BadSymbol == 11  BadRadix == 12  BadLiteral == 13  BadEqu == 14  BadToken == 15  BadCall == 16

-------------------------------------------------------------------------------
(* characters *)
IsWhite(c) == c = 32 \/ c = 0 \/ c = 9 \/ c = 10 \/ c = 13
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
IsName(c) == IsAlnum(c) \/ c = 95
Up == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DigitStr(c) == LET k == IF IsDigit(c) THEN c - 47 ELSE IF c >= 97 THEN c - 86 ELSE c - 54 IN SubSeq(Up, k, k)
RECURSIVE Numeral(_)
Numeral(s) == IF s = <<>> THEN "" ELSE DigitStr(s[1]) \o Numeral(Tail(s))

At(c, i) == IF i <= Len(c) THEN c[i] ELSE 0
\* the first position from i on that is outside the class
InClass(x, class) == CASE class = "white" -> IsWhite(x) [] class = "alnum" -> IsAlnum(x) [] class = "name" -> IsName(x)
RECURSIVE Skip(_, _, _)
Skip(c, i, class) == IF i <= Len(c) /\ InClass(c[i], class) THEN Skip(c, i + 1, class) ELSE i

-------------------------------------------------------------------------------
(* tokens: [t, v]; a failure is [e |-> kind]  *)
Two == {<<42, 42>>, <<33, 61>>, <<62, 62>>, <<62, 61>>, <<60, 60>>, <<60, 61>>, <<61, 61>>}   \* ** != >> >= << <= ==
OneChar == {43, 45, 42, 47, 33, 37, 38, 124, 94, 126, 62, 60, 40, 41, 44, 63, 58}             \* + - * / ! % & | ^ ~ > < ( ) , ? :
OpTable == << <<<<42, 42>>, "**">>, <<<<33, 61>>, "!=">>, <<<<62, 62>>, ">>">>, <<<<62, 61>>, ">=">>, <<<<60, 60>>, "<<">>, <<<<60, 61>>, "<=">>, <<<<61, 61>>, "==">>,
               <<<<43>>, "+">>, <<<<45>>, "-">>, <<<<42>>, "*">>, <<<<47>>, "/">>, <<<<33>>, "!">>, <<<<37>>, "%">>, <<<<38>>, "&">>, <<<<124>>, "|">>, <<<<94>>, "^">>,
               <<<<126>>, "~">>, <<<<62>>, ">">>, <<<<60>>, "<">>, <<<<40>>, "(">>, <<<<41>>, ")">>, <<<<44>>, ",">>, <<<<63>>, "?">>, <<<<58>>, ":">> >>
OpNames == [s \in Two \cup {<<c>> : c \in OneChar} |-> (CHOOSE k \in 1..Len(OpTable) : OpTable[k][1] = s)]
OpName(s) == OpTable[OpNames[s]][2]

Tok(k, t, v) == [e |-> 0, p |-> k, t |-> t, v |-> v]
Bad(code) == [e |-> code, p |-> 0, t |-> "", v |-> ""]
\* a literal of digits c[i..j-1] in the radix; k is where the next token begins
Literal(c, i, j, radix, k) == IF radix \notin 2..36 THEN Bad(BadRadix)
                              ELSE LET v == ZParse(Numeral(SubSeq(c, i, j - 1)), radix) IN IF v = "" THEN Bad(BadLiteral) ELSE Tok(k, "num", v)
\* only a decimal literal may have a fractional part, which has no bearing on the integer
Whole(c, i, radix) == LET j == Skip(c, i, "alnum") IN IF At(c, j) = 46 THEN Bad(NotDec) ELSE Literal(c, i, j, radix, j)
Decimal(c, i, j) == Literal(c, i, j, 10, IF At(c, j) = 46 THEN Skip(c, j + 1, "alnum") ELSE j)
Number(c, i) ==
  IF c[i] # 48 THEN Decimal(c, i, Skip(c, i, "alnum"))
  ELSE IF At(c, i + 1) = 120 THEN Whole(c, i + 2, 16)                                                             \* 0x...
  ELSE IF ~IsDigit(At(c, i + 1)) THEN Decimal(c, i, i + 1)                                                        \* 0
  ELSE IF At(c, i + 2) = 120 THEN Whole(c, i + 3, c[i + 1] - 48)                                                  \* 0rx...
  ELSE IF IsDigit(At(c, i + 2)) /\ At(c, i + 3) = 120 THEN Whole(c, i + 4, 10 * (c[i + 1] - 48) + c[i + 2] - 48)  \* 0rrx...
  ELSE Whole(c, i + 1, 8)                                                                                         \* 0...
\* the token that begins at i (not white); tab maps the names of the known symbols to [k, v, n]
TokenAt(c, i, tab) ==
  IF i < Len(c) /\ <<c[i], c[i + 1]>> \in Two THEN Tok(i + 2, "op", OpName(<<c[i], c[i + 1]>>))
  ELSE IF c[i] \in OneChar THEN Tok(i + 1, "op", OpName(<<c[i]>>))
  ELSE IF c[i] = 61 THEN Bad(BadEqu)
  ELSE IF IsDigit(c[i]) THEN Number(c, i)
  ELSE IF ~IsName(c[i]) THEN Bad(BadChar)
  ELSE LET j == Skip(c, i, "name")  name == SubSeq(c, i, j - 1)
       IN IF name \notin DOMAIN tab THEN Bad(Undefined) ELSE IF tab[name].k = "bad" THEN Bad(BadSymbol) ELSE Tok(j, tab[name].k, name)
\* the tokens from position i on
Lex(c, tab) ==
  LET L[i \in Nat] == LET j == Skip(c, i, "white") IN
                      IF j > Len(c) THEN [e |-> 0, toks |-> <<>>]
                      ELSE LET x == TokenAt(c, j, tab) IN
                           IF x.e # 0 THEN [e |-> x.e, toks |-> <<>>]
                           ELSE LET r == L[x.p] IN IF r.e # 0 THEN r ELSE [e |-> 0, toks |-> <<<<x.t, x.v>>>> \o r.toks]
  IN L[1]

-------------------------------------------------------------------------------
(* the grammar                                                                                                     *)
(*   expr  ::= chain [ "?" expr ":" expr ]            chain ::= unary { operator unary }                             *)
(*   unary ::= ("+" | "-" | "~") unary | prim { "!" } prim  ::= number | constant | "(" expr ")" | function "(" [expr {"," expr}] ")" *)
(* and the operators of a chain bind by level, those of one level from left to right                               *)
Levels == << {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}, {"**"} >>
Prefix == {"+", "-", "~"}
BinLevel == [o \in UNION {Levels[l] : l \in 1..Len(Levels)} |-> CHOOSE l \in 1..Len(Levels) : o \in Levels[l]]
Fail(code) == [e |-> code, p |-> 0, n |-> <<>>]
Got(p, n) == [e |-> 0, p |-> p, n |-> n]
\* the tree of a chain u1 o1 u2 o2 ... un: the last operator of the lowest level is applied last
Bind(us, os) ==
  LET T[r \in Nat \X Nat] ==
        IF r[1] = r[2] THEN us[r[1]]
        ELSE LET ops == r[1]..(r[2] - 1)
                 levels == {BinLevel[os[k]] : k \in ops}
                 low == CHOOSE l \in levels : \A m \in levels : l <= m
                 k == CHOOSE k \in ops : BinLevel[os[k]] = low /\ \A j \in (k + 1)..(r[2] - 1) : BinLevel[os[j]] # low
             IN [k |-> "bin", o |-> os[k], a |-> T[<<r[1], k>>], b |-> T[<<k + 1, r[2]>>]]
  IN T[<<1, Len(us)>>]
RECURSIVE Bangs(_, _)
Bangs(n, k) == IF k = 0 THEN n ELSE Bangs([k |-> "un", o |-> "!", a |-> n], k - 1)
Syntax(ts, tab) ==
  LET Is(p, o) == p <= Len(ts) /\ ts[p][1] = "op" /\ ts[p][2] = o
      IsBin(p) == p <= Len(ts) /\ ts[p][1] = "op" /\ ts[p][2] \in DOMAIN BinLevel
      IsPre(p) == p <= Len(ts) /\ ts[p][1] = "op" /\ ts[p][2] \in Prefix
      NoBang(p) == CHOOSE q \in p..(Len(ts) + 1) : ~Is(q, "!") /\ \A j \in p..(q - 1) : Is(j, "!")
      G[r \in {"expr", "chain", "unary", "prim", "args"} \X Nat] ==
        LET p == r[2] IN
        CASE r[1] = "expr" ->
               LET c == G[<<"chain", p>>] IN
               IF c.e # 0 THEN c
               ELSE LET n == Bind(c.n[1], c.n[2]) IN
                    IF ~Is(c.p, "?") THEN Got(c.p, n)
                    ELSE LET a == G[<<"expr", c.p + 1>>] IN
                         IF a.e # 0 THEN a ELSE IF ~Is(a.p, ":") THEN Fail(BadToken)
                         ELSE LET b == G[<<"expr", a.p + 1>>] IN IF b.e # 0 THEN b ELSE Got(b.p, [k |-> "if", c |-> n, a |-> a.n, b |-> b.n])
          [] r[1] = "chain" ->
               LET u == G[<<"unary", p>>] IN
               IF u.e # 0 THEN u ELSE IF ~IsBin(u.p) THEN Got(u.p, << <<u.n>>, <<>> >>)
               ELSE LET c == G[<<"chain", u.p + 1>>] IN IF c.e # 0 THEN c ELSE Got(c.p, << <<u.n>> \o c.n[1], <<ts[u.p][2]>> \o c.n[2] >>)
          [] r[1] = "unary" ->
               IF IsPre(p) THEN LET u == G[<<"unary", p + 1>>] IN IF u.e # 0 THEN u ELSE Got(u.p, [k |-> "un", o |-> ts[p][2], a |-> u.n])
               ELSE LET u == G[<<"prim", p>>] IN IF u.e # 0 THEN u ELSE LET q == NoBang(u.p) IN Got(q, Bangs(u.n, q - u.p))
          [] r[1] = "prim" ->
               IF p > Len(ts) THEN Fail(BadToken)
               ELSE IF ts[p][1] = "num" THEN Got(p + 1, [k |-> "num", v |-> ts[p][2]])
               ELSE IF ts[p][1] = "con" THEN Got(p + 1, [k |-> "num", v |-> tab[ts[p][2]].v])
               ELSE IF Is(p, "(") THEN LET x == G[<<"expr", p + 1>>] IN IF x.e # 0 THEN x ELSE IF Is(x.p, ")") THEN Got(x.p + 1, x.n) ELSE Fail(BadToken)
               ELSE IF ts[p][1] = "fun" /\ Is(p + 1, "(")
               THEN LET f == tab[ts[p][2]]  x == IF Is(p + 2, ")") THEN Got(p + 3, <<>>) ELSE G[<<"args", p + 2>>] IN
                    IF x.e # 0 THEN x ELSE IF f.n \in {-1, Len(x.n)} THEN Got(x.p, [k |-> "call", f |-> f, args |-> x.n]) ELSE Fail(BadCall)
               ELSE Fail(BadToken)
          [] r[1] = "args" ->
               LET x == G[<<"expr", p>>] IN
               IF x.e # 0 THEN x
               ELSE IF Is(x.p, ")") THEN Got(x.p + 1, <<x.n>>)
               ELSE IF Is(x.p, ",") THEN LET y == G[<<"args", x.p + 1>>] IN IF y.e # 0 THEN y ELSE Got(y.p, <<x.n>> \o y.n)
               ELSE Fail(BadToken)
  IN G[<<"expr", 1>>]
\* the syntax tree of a text, or the kind of its first error
Parse(c, tab) == LET t == Lex(c, tab) IN
                 IF t.e # 0 THEN Fail(t.e)
                 ELSE LET x == Syntax(t.toks, tab) IN IF x.e # 0 THEN x ELSE IF x.p <= Len(t.toks) THEN Fail(BadToken) ELSE x

-------------------------------------------------------------------------------
(* the value of a tree: v the number ("?" after a division by zero), d how many divisions by zero it signals,      *)
(* t the arguments of the calls of tick(), w: nothing is promised (what depends on the result of a division by     *)
(* zero, a negative exponent, a shift by a negative or enormous count), x: a function throws, q: divisions that succeed *)
Val(v) == [v |-> v, d |-> 0, t |-> <<>>, w |-> FALSE, x |-> FALSE, q |-> 0]
With(v, a, b) == [v |-> v, d |-> a.d + b.d, t |-> a.t \o b.t, w |-> a.w \/ b.w, x |-> a.x \/ b.x, q |-> a.q + b.q]
Wild(a, b) == [With("?", a, b) EXCEPT !.w = TRUE]
Bool(b) == IF b THEN "1" ELSE "0"
Neg(v) == ZCmp(v, "0") < 0
Small(v) == ~Neg(v) /\ ZCmp(v, "186a0") < 0
\* a right shift by an enormous count leaves the sign, a left shift of zero is zero
Huge(o, x, y, a, b) == IF y = "?" \/ x = "?" \/ Neg(y) THEN Wild(a, b)
                       ELSE IF o = "<<" THEN IF x = "0" THEN With("0", a, b) ELSE Wild(a, b)
                       ELSE IF o = ">>" THEN LET z == ZShr(x, 100000) IN IF z = "0" \/ z = ZNeg("1") THEN With(z, a, b) ELSE Wild(a, b)
                       ELSE Wild(a, b)
BinOp(o, a, b) ==
  LET x == a.v y == b.v  R(v) == With(v, a, b) IN
  IF o \in {"/", "%"} THEN IF y = "?" THEN Wild(a, b)
                           ELSE IF y = "0" THEN [R("?") EXCEPT !.d = @ + 1]
                           ELSE [R(IF x = "?" THEN "?" ELSE IF o = "/" THEN ZQuo(x, y) ELSE ZRem(x, y)) EXCEPT !.q = @ + 1]
  ELSE IF o \in {"<<", ">>", "**"} THEN IF y = "?" \/ (y # "0" /\ ~Small(y)) THEN Huge(o, x, y, a, b)
                                   ELSE IF x = "?" THEN R("?")
                                   ELSE IF o = "<<" THEN R(ZShl(x, ZToInt(y))) ELSE IF o = ">>" THEN R(ZShr(x, ZToInt(y))) ELSE R(ZPow(x, ZToInt(y)))
  ELSE IF x = "?" \/ y = "?" THEN R("?")
  ELSE R(CASE o = "|" -> ZOr(x, y) [] o = "^" -> ZXor(x, y) [] o = "&" -> ZAnd(x, y) [] o = "==" -> Bool(ZCmp(x, y) = 0) [] o = "!=" -> Bool(ZCmp(x, y) # 0)
           [] o = "<" -> Bool(ZCmp(x, y) < 0) [] o = "<=" -> Bool(ZCmp(x, y) <= 0) [] o = ">" -> Bool(ZCmp(x, y) > 0) [] o = ">=" -> Bool(ZCmp(x, y) >= 0)
           [] o = "+" -> ZAdd(x, y) [] o = "-" -> ZSub(x, y) [] o = "*" -> ZMul(x, y))
UnOp(o, a) ==
  LET x == a.v IN
  IF x = "?" THEN IF o = "!" THEN [a EXCEPT !.w = TRUE] ELSE a
  ELSE IF o = "!" /\ ~Neg(x) /\ ~Small(x) THEN [a EXCEPT !.w = TRUE]
  ELSE [a EXCEPT !.v = CASE o = "+" -> x [] o = "-" -> ZNeg(x) [] o = "~" -> ZNot(x) [] o = "!" -> IF Neg(x) THEN "0" ELSE ZFact(x)]
RECURSIVE SumAll(_)
SumAll(s) == IF s = <<>> THEN "0" ELSE ZAdd(s[1], SumAll(Tail(s)))
Apply(f, xs) == CASE f = "sum" -> SumAll(xs) [] f = "neg" -> ZNeg(xs[1]) [] f = "max2" -> (IF ZCmp(xs[1], xs[2]) >= 0 THEN xs[1] ELSE xs[2])
                  [] f = "fma" -> ZAdd(ZMul(xs[1], xs[2]), xs[3]) [] f = "cnt" -> ZOfInt(Len(xs)) [] f = "nine" -> "9" [] f = "boom" -> (IF Len(xs) = 0 THEN "0" ELSE "1") [] f = "tick" -> xs[1] [] f = "bump" -> ZAdd(xs[1], "1")
RECURSIVE Eval(_), EvalAll(_)
Eval(n) == CASE n.k = "num" -> Val(n.v)
             [] n.k = "un" -> UnOp(n.o, Eval(n.a))
             [] n.k = "bin" -> BinOp(n.o, Eval(n.a), Eval(n.b))
             [] n.k = "if" -> LET c == Eval(n.c) IN
                              IF c.x THEN c ELSE IF c.v = "?" THEN [c EXCEPT !.w = TRUE]
                              ELSE LET b == Eval(IF c.v # "0" THEN n.a ELSE n.b) IN With(b.v, c, b)
             [] n.k = "call" -> LET r == EvalAll(n.args)  unk == \E k \in 1..Len(r.xs) : r.xs[k] = "?" IN
                                IF n.f.v = "boom" THEN [v |-> Apply("boom", r.xs), d |-> r.d, t |-> r.t, w |-> r.w, x |-> r.x \/ Len(r.xs) % 2 = 1, q |-> r.q]
                                ELSE IF unk THEN [v |-> IF n.f.v = "cnt" THEN ZOfInt(Len(r.xs)) ELSE IF n.f.v = "nine" THEN "9" ELSE "?", d |-> r.d, t |-> r.t, w |-> r.w \/ n.f.v \in {"tick", "max2"}, x |-> r.x, q |-> r.q]
                                ELSE [v |-> Apply(n.f.v, r.xs), d |-> r.d, t |-> IF n.f.v = "tick" THEN Append(r.t, r.xs[1]) ELSE r.t, w |-> r.w, x |-> r.x, q |-> r.q]
EvalAll(ns) == IF ns = <<>> THEN [xs |-> <<>>, d |-> 0, t |-> <<>>, w |-> FALSE, x |-> FALSE, q |-> 0]
               ELSE LET a == Eval(ns[1]) b == EvalAll(Tail(ns)) IN [xs |-> <<a.v>> \o b.xs, d |-> a.d + b.d, t |-> a.t \o b.t, w |-> a.w \/ b.w, x |-> a.x \/ b.x, q |-> a.q + b.q]

-------------------------------------------------------------------------------
(* the service: the table of symbols and three statuses (0 is the global one); -1: nothing assigned so far *)
VARIABLES tab, st, out, err, ticks
xvars == <<tab, st, out, err, ticks>>
NoTab == [x \in {} |-> 0]
XInit == tab = NoTab /\ st = <<-1, -1, -1>> /\ out = "" /\ err = <<>> /\ ticks = <<>>
Define(name, k, v, n) == /\ tab' = [x \in DOMAIN tab \cup {name} |-> IF x = name THEN [k |-> k, v |-> v, n |-> n] ELSE tab[x]]
                         /\ out' = "" /\ err' = <<>> /\ ticks' = <<>> /\ UNCHANGED st
Same(s, t) == Len(s) = Len(t) /\ \A x \in {s[k] : k \in 1..Len(s)} : Cardinality({k \in 1..Len(s) : s[k] = x}) = Cardinality({k \in 1..Len(t) : t[k] = x})
\* evaluation of text c reporting to status s: observed result o, callbacks es, calls ts, statuses gs; par: by several
\* threads, then an error of the computation shows in the status of the thread that met it
Rejected(code, s, o, es, ts, gs) == \* the code reaches the status of the call (and the global one), nothing is computed
  /\ o = "0" /\ ts = <<>> /\ Len(es) > 0 /\ \A k \in 1..Len(es) : es[k] = code
  /\ Len(es) <= (IF s = 0 THEN 1 ELSE 2)
  /\ gs[s + 1] = code /\ \A k \in 2..3 : k # s + 1 => gs[k] = st[k]
  /\ s # 0 => gs[1] \in {st[1], code, Success}
Computed(r, s, o, es, ts, gs, par) ==
  \/ r.w
  \/ \* a function has thrown: the evaluation ends with its exception
     /\ ~r.w /\ r.x /\ o = "exc" /\ Len(es) <= r.d /\ \A k \in 1..Len(es) : es[k] = DivBy0
     /\ gs[1] \in {st[1], Success, DivBy0} /\ \A k \in 2..3 : gs[k] = st[k]
  \/ /\ ~r.w /\ ~r.x /\ r.v \in {o, "?"} /\ o # "exc" /\ Same(r.t, ts)
     /\ Len(es) = r.d /\ \A k \in 1..Len(es) : es[k] = DivBy0
     /\ gs[1] \in (IF r.d = 0 THEN {st[1], Success} ELSE IF par THEN {st[1], Success, DivBy0} ELSE IF r.q > 0 THEN {Success, DivBy0} ELSE {DivBy0}) /\ \A k \in 2..3 : gs[k] = st[k]
Evaluate(c, s, o, es, ts, gs, par) ==
  LET x == Parse(c, tab) IN
  /\ UNCHANGED tab /\ out' = o /\ err' = es /\ ticks' = ts /\ st' = gs
  /\ IF x.e # 0 THEN Rejected(x.e, s, o, es, ts, gs) ELSE Computed(Eval(x.n), s, o, es, ts, gs, par)

-------------------------------------------------------------------------------
(* families of texts of any length, by number: the text for n, and what it evaluates to without parsing it *)
(* (ExprGen checks for small n that both agree); g is sum, t tick, f neg                                    *)
RECURSIVE Rep(_, _), List(_, _), DecN(_), TreeText(_)
Rep(x, n) == IF n <= 0 THEN <<>> ELSE x \o Rep(x, n - 1)
DecN(k) == IF k < 10 THEN <<48 + k>> ELSE DecN(k \div 10) \o <<48 + (k % 10)>>
Item(f, k) == CASE f = 2 -> DecN(k) \o <<42, 49>> [] f = 3 -> DecN(k) \o <<37, 50, 63, 49, 58, 50>> [] f = 4 -> <<116, 40>> \o DecN(k) \o <<41>>
                [] f = 11 -> <<49, 47, 48>> [] OTHER -> DecN(k)
List(f, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN Item(f, 1) ELSE List(f, n - 1) \o <<44>> \o Item(f, n)
TreeText(n) == IF n = 0 THEN <<49>> ELSE <<40>> \o TreeText(n - 1) \o <<43>> \o TreeText(n - 1) \o <<41>>
FamilyText(f, n) ==
  CASE f \in {1, 2, 3, 4, 11} -> <<103, 40>> \o List(f, n) \o <<41>>
    [] f = 5 -> TreeText(n) [] f = 6 -> <<49>> \o Rep(<<43, 49>>, n) [] f = 7 -> Rep(<<40>>, n) \o <<49>> \o Rep(<<41>>, n)
    [] f = 8 -> Rep(<<45>>, n) \o <<49>> [] f = 9 -> <<49>> \o Rep(<<33>>, n) [] f = 10 -> <<103, 40>> \o List(f, n)
    [] f = 12 -> <<49>> \o Rep(<<48>>, n) [] f = 13 -> <<49>> \o Rep(<<32>>, n) \o <<43>> \o Rep(<<10>>, n) \o <<49>>
    [] f = 14 -> Rep(<<48, 63, 49, 58>>, n) \o <<57>> [] f = 15 -> <<102, 40>> \o List(f, n) \o <<41>>
    [] f = 16 -> Rep(<<102, 40>>, n) \o <<49>> \o Rep(<<41>>, n) [] f = 17 -> Rep(<<103, 40, 49, 44>>, n) \o <<50>> \o Rep(<<41>>, n)
    [] f = 18 -> <<49>> \o Rep(<<42, 49>>, n) \o <<43, 49>> \o Rep(<<42, 49>>, n)
    [] f = 19 -> Rep(<<49, 63>>, n) \o <<57>> \o Rep(<<58, 49>>, n)
FamilyError(f, n) == IF f = 10 THEN BadToken ELSE IF f = 15 /\ n # 1 THEN BadCall ELSE 0
Triangle(n) == ZQuo(ZMul(ZOfInt(n), ZOfInt(n + 1)), "2")
FamilyValue(f, n) ==
  LET V(v) == [Val(v) EXCEPT !.q = 0] IN
  CASE f \in {1, 2} -> V(Triangle(n)) [] f = 3 -> [V(ZOfInt(n + (n \div 2))) EXCEPT !.q = n] [] f = 4 -> [V(Triangle(n)) EXCEPT !.t = [k \in 1..n |-> ZOfInt(k)]]
    [] f = 5 -> V(ZPow("2", n)) [] f = 6 -> V(ZOfInt(n + 1)) [] f \in {7, 9} -> V("1") [] f \in {8, 16} -> V(IF n % 2 = 0 THEN "1" ELSE "-1")
    [] f = 11 -> [V(IF n = 0 THEN "0" ELSE "?") EXCEPT !.d = n] [] f = 12 -> V(ZPow("a", n)) [] f \in {13, 18} -> V("2") [] f \in {14, 19} -> V("9") [] f = 15 -> V("-1")
    [] f = 17 -> V(ZOfInt(n + 2))
EvaluateFamily(f, n, s, o, es, ts, gs, par) ==
  /\ UNCHANGED tab /\ out' = o /\ err' = es /\ ticks' = ts /\ st' = gs
  /\ IF FamilyError(f, n) # 0 THEN Rejected(FamilyError(f, n), s, o, es, ts, gs) ELSE Computed(FamilyValue(f, n), s, o, es, ts, gs, par)
XType == DOMAIN st = 1..3 /\ \A n \in DOMAIN tab : tab[n].k \in {"fun", "con", "bad"}
===============================================================================
