------------------------------ MODULE ExprTrace -------------------------------
(* Is a recorded history of evaluations a behaviour of Expr?                    *)
EXTENDS Expr, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo
e == Trace[l]
\* memo: the last sequential evaluation. A parallel one of the same text gives the same, also where the value is not specified
None == [text |-> <<256>>, o |-> "", s |-> 0, err |-> <<>>]
Range(s) == {s[k] : k \in 1..Len(s)}
Agrees == e.par /\ memo.text = e.text => e.o = memo.o /\ (e.o # "exc" => IF (e.s = 0) = (memo.s = 0) THEN Same(e.err, memo.err) ELSE Range(e.err) = Range(memo.err))
Step == \/ e.op = "reset" /\ tab' = NoTab /\ st' = <<-1, -1, -1>> /\ out' = "" /\ err' = <<>> /\ ticks' = <<>> /\ memo' = None
        \/ e.op = "def" /\ Define(e.name, e.k, e.v, e.n) /\ memo' = None
        \/ e.op = "eval" /\ Evaluate(e.text, e.s, e.o, e.err, e.ticks, e.st, e.par) /\ Agrees /\ memo' = (IF e.par THEN memo ELSE [text |-> e.text, o |-> e.o, s |-> e.s, err |-> e.err])
        \/ e.op = "fam" /\ EvaluateFamily(e.f, e.n, e.s, e.o, e.err, e.ticks, e.st, e.par) /\ (e.text # <<>> => e.text = FamilyText(e.f, e.n)) /\ UNCHANGED memo
TraceInit == XInit /\ l = 1 /\ memo = None
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<xvars, memo, l>>
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ Print(<<"REJECTED", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
===============================================================================
