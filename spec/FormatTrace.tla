------------------------------ MODULE FormatTrace ------------------------------
(* Are recorded calls of format / formatAppend as module Format says?           *)
(* append: the text was appended to the text e.r                                *)
EXTENDS Format, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Step == e.op = "format" /\ (Specified(e.f, e.a) => e.o = e.r \o Format(e.f, e.a))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ Print(<<"REJECTED", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
===============================================================================
