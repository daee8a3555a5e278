------------------------------- MODULE LowWord -------------------------------
(***************************************************************************)
(* The two's complement words of a negative number are read off its           *)
(* magnitude by the position of the lowest word that is not zero, and the      *)
(* library remembers that position with the object from the first reading on   *)
(* (copying, moving and swapping it with the object).  This module has          *)
(*   - the law by which words are read off (Words);                            *)
(*   - `mem`: what each object remembers if nothing ever made it forget;       *)
(* and writes down every history  look, turn, change, turn, look  after which    *)
(* a position remembered from before is wrong for a number that is negative:    *)
(* the histories in which the operations between the looks must have made the    *)
(* object forget.  They are run on the real code and validated by BigTrace.      *)
(***************************************************************************)
EXTENDS BigNum, TLC, CSV, IOUtils

CONSTANTS Starts, Others, Imms
VARIABLES mem, hist, at
lvars == <<reg, out, err, mem, hist, at>>

Neg(x) == ZCmp(x, "0") < 0
NWords(x) == (ZBitLen(x) + 31) \div 32
Low(x) == CHOOSE k \in 0..NWords(x) - 1 : ZWord(ZAbs(x), k) # "0" /\ \A j \in 0..k - 1 : ZWord(ZAbs(x), j) = "0"
Flip(w) == ZSub("ffffffff", w)
\* word k of x, read off the magnitude when the lowest word that is not zero is word m
Read(x, k, m) == LET w == ZWord(ZAbs(x), k) IN
                 IF ~Neg(x) THEN w ELSE IF k < m THEN "0" ELSE IF k = m THEN ZSub("100000000", w) ELSE Flip(w)
Words == \A j \in Regs : reg[j] # "M" /\ reg[j] # "0" =>
             LET x == reg[j] m == Low(x) IN \A k \in 0..NWords(x) + 1 : Read(x, k, m) = ZWord(x, k)
\* with a wrong position some word is read wrongly
Matters == \A j \in Regs : reg[j] # "M" /\ Neg(reg[j]) =>
             LET x == reg[j] m == Low(x) n == NWords(x) IN \A w \in 0..n : w # m => \E k \in 0..n : Read(x, k, w) # ZWord(x, k)

D1(k) == ToString(k)
D2(k, j) == ToString(k) \o "," \o ToString(j)
Cmd(op, f, d, s, n, i, t) == op \o " " \o f \o " " \o d \o " " \o s \o " " \o ToString(n) \o " " \o i \o " " \o t
Act(op, f, d, s, n, ds, ss, i, is, t, ts) == Do(op, f, d, s, n, is, t, <<>>) /\ hist' = Append(hist, Cmd(op, f, ds, ss, n, i, ts))
U(op, k) == Act(op, "A", <<k>>, <<k>>, 0, D1(k), D1(k), "-", <<>>, "", "-") /\ mem' = mem
Skip == UNCHANGED <<reg, out, err, mem>> /\ hist' = Append(hist, "-")
Imm(op, k, x) == Act(op, "Ai", <<k>>, <<k, -1>>, 0, D1(k), D1(k) \o ",-1", x, <<x>>, "", "-") /\ mem' = mem
Reg(op, k, j) == Act(op, "A", <<k>>, <<k, j>>, 0, D1(k), D2(k, j), "-", <<>>, "", "-") /\ mem' = mem
Shift(op, k, n) == Act(op, "A", <<k>>, <<k>>, n, D1(k), D1(k), "-", <<>>, "", "-") /\ mem' = mem
Copy(j, k) == Act("copy", "as", <<k>>, <<j>>, 0, D1(k), D1(j), "-", <<>>, "", "-") /\ mem' = [mem EXCEPT ![k] = mem[j]]
\* a new value written over the old one: nothing may remain of what was remembered for that
Over(op, f, k, s, n, i, is, t, ts) == Act(op, f, <<k>>, s, n, D1(k), IF s = <<>> THEN "-" ELSE "-1", i, is, t, ts) /\ mem' = mem

Imul == {"add", "sub", "mul", "and", "or", "xor", "div", "mod"}
Change == \/ \E op \in Imul, x \in Imms : (op \in {"div", "mod"} => x # "0") /\ Imm(op, 0, x)
          \/ \E op \in Imul : (op \in {"div", "mod"} => reg[1] # "0") /\ Reg(op, 0, 1)
          \/ \E op \in {"add", "sub", "mul"} : Reg(op, 0, 0)
          \/ \E op \in {"inc", "dec", "neg", "abs", "not", "notbits"} : U(op, 0)
          \/ \E op \in {"shl", "shr"}, n \in {1, 31, 32, 33, 64} : Shift(op, 0, n)
          \/ Copy(1, 0)
          \/ \E x \in Imms : Over("ofi64", "as", 0, <<-1>>, 0, x, <<x>>, "", "-")
          \/ Over("ofbin", "as", 0, <<>>, 1, "-", <<>>, "0000000000000000ff", "0000000000000000ff")
          \/ Over("parse", "t", 0, <<>>, 16, "-", <<>>, "-700000000", "2d373030303030303030")
          \/ Over("zero", "as", 0, <<>>, 0, "-", <<>>, "", "-")
Turn == Skip \/ U("neg", 0) \/ U("not", 0) \/ U("abs", 0)
LInit == /\ \E x \in Starts, y \in Others : reg = [k \in Regs |-> IF k = 0 THEN x ELSE IF k = 1 THEN y ELSE "0"]
         /\ out = <<>> /\ err = <<>> /\ hist = <<reg[0], reg[1]>> /\ at = 0
         /\ mem = [k \in Regs |-> IF k < 2 /\ Neg(reg[k]) THEN Low(reg[k]) ELSE -1]
LNext == /\ at < 4 /\ at' = at + 1
         /\ CASE at = 0 -> Turn
              [] at = 1 -> Change
              [] at = 2 -> Turn
              [] at = 3 -> Skip \/ Copy(0, 2)
Wrong(k) == reg[k] # "M" /\ Neg(reg[k]) /\ mem[k] # -1 /\ mem[k] # Low(reg[k])
Join(h) == LET F[k \in 0..Len(h)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k > 1 THEN ";" ELSE "") \o h[k] IN F[Len(h)]
Emit == at = 4 /\ (Wrong(0) \/ Wrong(2)) => CSVWrite("%1$s", <<Join(hist)>>, IOEnv.OUT)
==============================================================================
