-------------------------------- MODULE Format --------------------------------
(* Formatting: `format` replaces the placeholders of a text by its arguments.    *)
(* Texts are sequences of byte values.  Arguments are records [t, v]:            *)
(*   "i" signed integer (v: decimal numeral), "u" unsigned, "y" small integer    *)
(*   and "b" truth value that take no limit, "k" a character, "s" text,          *)
(*   "d" binary fraction <<numerator, exponent>>, "n" big number <<numeral>>,    *)
(*   "l" a list of arguments, "p" a pair of arguments                            *)
EXTENDS Z, Integers, Sequences

Digit(c) == c \in 48..57
RECURSIVE Find(_, _, _)                 \* first position of byte c at or after p; 0: none
Find(f, c, p) == IF p > Len(f) THEN 0 ELSE IF f[p] = c THEN p ELSE Find(f, c, p + 1)
RECURSIVE Places(_, _)                  \* the placeholders at or after p, as <<first, last>> position of the text between the brackets
Places(f, p) == LET b == Find(f, 123, p)  e == IF b = 0 THEN 0 ELSE Find(f, 125, b) IN
                IF e = 0 THEN <<>> ELSE <<<<b + 1, e - 1>>>> \o Places(f, e)
RECURSIVE NatOf(_)
NatOf(s) == IF s = <<>> THEN 0 ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
RECURSIVE Lead(_)                       \* number of leading digits
Lead(s) == IF s = <<>> \/ ~Digit(s[1]) THEN 0 ELSE 1 + Lead(Tail(s))
\* a placeholder: number of the argument and limit; ok: of the form {number} or {number:limit}
Place(c) == LET k == Lead(c) IN
            [ok |-> k \in 1..4 /\ (k = Len(c) \/ c[k + 1] = 58), no |-> IF k \in 1..4 THEN NatOf(SubSeq(c, 1, k)) ELSE 0,
             limit |-> IF k < Len(c) THEN SubSeq(c, k + 2, Len(c)) ELSE <<>>]

\* limits as in printf: flags, width, precision
RECURSIVE Flags(_)
Flags(s) == IF s = <<>> \/ s[1] \notin {43, 45, 48, 32} THEN 0 ELSE 1 + Flags(Tail(s))
Limit(s) == LET f == Flags(s)  r == SubSeq(s, f + 1, Len(s))  w == Lead(r)  q == SubSeq(r, w + 1, Len(r))
                fl == {s[k] : k \in 1..f}
            IN [ok |-> w <= 4 /\ (q = <<>> \/ (q[1] = 46 /\ Lead(Tail(q)) = Len(q) - 1 /\ Len(q) <= 5)),
                left |-> 45 \in fl, zero |-> 48 \in fl, plus |-> 43 \in fl, space |-> 32 \in fl,
                width |-> NatOf(SubSeq(r, 1, w)), prec |-> IF q = <<>> THEN -1 ELSE NatOf(Tail(q))]
Rep(c, n) == [k \in 1..n |-> c]
\* sign and digits in a field
Field(L, sgn, ds, zeros) == LET n == Len(sgn) + Len(ds) IN
    IF n >= L.width THEN sgn \o ds
    ELSE IF L.left THEN sgn \o ds \o Rep(32, L.width - n)
    ELSE IF zeros THEN sgn \o Rep(48, L.width - n) \o ds
    ELSE Rep(32, L.width - n) \o sgn \o ds
SignOf(L, neg) == IF neg THEN <<45>> ELSE IF L.plus THEN <<43>> ELSE IF L.space THEN <<32>> ELSE <<>>
Sym == "0123456789abcdefghijklmnopqrstuvwxyz"
CodeOf == [ch \in {SubSeq(Sym, k, k) : k \in 1..36} |-> LET k == CHOOSE k \in 1..36 : SubSeq(Sym, k, k) = ch IN IF k <= 10 THEN 47 + k ELSE 86 + k]
DigitsOf(x, radix) == LET cs == Chars(ZFormat(ZAbs(x), radix)) IN [k \in 1..Len(cs) |-> CodeOf[cs[k]]]
Neg(x) == ZCmp(x, "0") < 0
AtLeast(ds, n) == IF Len(ds) < n THEN Rep(48, n - Len(ds)) \o ds ELSE ds
Integer(L, x, signed) == Field(L, IF signed THEN SignOf(L, Neg(x)) ELSE <<>>,
                               IF L.prec = 0 /\ x = "0" THEN <<>> ELSE AtLeast(DigitsOf(x, 10), L.prec), L.zero /\ L.prec < 0)
\* num / 2^exp with p digits after the point, rounded to the nearest, ties to even
Fixed(L, num, exp) == LET p == IF L.prec < 0 THEN 6 ELSE L.prec
                          s == ZMul(ZAbs(num), ZPow("a", p))
                          q == ZShr(s, exp)  r2 == ZShl(ZSub(s, ZShl(q, exp)), 1)
                          up == ZCmp(r2, ZPow("2", exp)) > 0 \/ (r2 = ZPow("2", exp) /\ ZLow(q, 1, FALSE) = "1")
                          ds == AtLeast(DigitsOf(IF up THEN ZAdd(q, "1") ELSE q, 10), p + 1)
                          n == Len(ds)
                      IN Field(L, SignOf(L, Neg(num)), SubSeq(ds, 1, n - p) \o (IF p = 0 THEN <<>> ELSE <<46>> \o SubSeq(ds, n - p + 1, n)), L.zero)
Str(L, s) == Field(L, <<>>, IF L.prec >= 0 /\ L.prec < Len(s) THEN SubSeq(s, 1, L.prec) ELSE s, FALSE)
True == <<116, 114, 117, 101>>  False == <<102, 97, 108, 115, 101>>
Radix(limit) == LET k == Lead(limit) IN IF k \in 1..4 /\ NatOf(SubSeq(limit, 1, k)) \in 2..36 THEN NatOf(SubSeq(limit, 1, k)) ELSE 10
RECURSIVE Text(_, _), Items(_)
Text(a, limit) == LET L == Limit(limit) IN
    CASE a.t = "i" -> Integer(L, a.v, TRUE)
      [] a.t = "u" -> Integer(L, a.v, FALSE)
      [] a.t = "y" -> DigitsOf(a.v, 10)
      [] a.t = "b" -> IF a.v THEN True ELSE False
      [] a.t = "k" -> <<a.v>>
      [] a.t = "s" -> Str(L, a.v)
      [] a.t = "d" -> Fixed(L, a.v[1], a.v[2])
      [] a.t = "n" -> (IF Neg(a.v) THEN <<45>> ELSE <<>>) \o DigitsOf(a.v, Radix(limit))
      [] a.t = "l" -> <<91>> \o Items(a.v) \o <<93>>
      [] a.t = "p" -> Text(a.v[1], <<>>) \o <<32, 58, 32>> \o Text(a.v[2], <<>>)
Items(v) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN Text(v[1], <<>>) ELSE Text(v[1], <<>>) \o <<44, 32>> \o Items(Tail(v))
\* limits that have a meaning for the argument
Suits(a, limit) == LET L == Limit(limit) IN
    CASE a.t \in {"i", "u", "d"} -> L.ok
      [] a.t = "s" -> L.ok /\ ~L.zero /\ ~L.plus /\ ~L.space
      [] OTHER -> TRUE
\* the formatted text: every placeholder replaced by the text of its argument, by nothing if there is no such argument
Format(f, args) == LET ps == Places(f, 1) IN
    LET F[k \in 0..Len(ps)] == IF k = 0 THEN SubSeq(f, 1, (IF ps = <<>> THEN Len(f) ELSE ps[1][1] - 2))
          ELSE LET c == Place(SubSeq(f, ps[k][1], ps[k][2])) IN
               F[k - 1] \o (IF c.no < Len(args) THEN Text(args[c.no + 1], c.limit) ELSE <<>>)
                        \o SubSeq(f, ps[k][2] + 2, IF k = Len(ps) THEN Len(f) ELSE ps[k + 1][1] - 2)
    IN F[Len(ps)]
\* placeholders without a number, and limits without a meaning, are not specified
Specified(f, args) == LET ps == Places(f, 1) IN \A k \in 1..Len(ps) :
                      LET c == Place(SubSeq(f, ps[k][1], ps[k][2])) IN c.ok /\ (c.no < Len(args) => Suits(args[c.no + 1], c.limit))
===============================================================================
