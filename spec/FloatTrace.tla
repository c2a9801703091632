------------------------------ MODULE FloatTrace ------------------------------
(***************************************************************************)
(* Trace validation for Float: is a recorded execution with arbitrary      *)
(* floating-point data a behaviour of the library up to rounding?          *)
(* See Trace for the format; numbers are digit sequences here.             *)
(***************************************************************************)
EXTENDS Float, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Regs == 0 .. 15
TraceInit == l = 1 /\ reg = [r \in Regs |-> <<>>] /\ one = <<1>> /\ up = <<1>>

Returned(ev) ==
  CASE ev.op \in {"sum", "add"}            -> SumOp(ev.a, ev.b, ev.d, ev.r)
    [] ev.op \in {"sub", "minus"}          -> SubOp(ev.a, ev.b, ev.d, ev.r)
    [] ev.op \in {"sums", "adds", "sadd"}  -> SumScalar(ev.a, ev.s, ev.d, ev.r)
    [] ev.op \in {"subs", "minuss"}        -> SubScalar(ev.a, ev.s, ev.d, ev.r)
    [] ev.op \in {"mults", "muls", "smul"} -> MulScalar(ev.a, ev.s, ev.d, ev.r)
    [] ev.op \in {"div", "divop"}          -> ~BZero(ev.s) /\ DivScalar(ev.a, ev.s, ev.d, ev.r)
    [] ev.op = "inc"                       -> SumScalar(ev.a, one, ev.d, ev.r)
    [] ev.op = "dec"                       -> SubScalar(ev.a, one, ev.d, ev.r)
    [] ev.op = "abs"                       -> AbsOp(ev.a, ev.d, ev.r)
    [] ev.op = "trans"                     -> TransOp(ev.a, ev.d, ev.r)
    [] ev.op \in {"mult", "mul"}           -> MultOp(ev.a, ev.b, ev.d, ev.r)
    [] ev.op = "strassen"                  -> StrassenOp(ev.a, ev.b, ev.d, ev.r)
    [] ev.op = "pow"                       -> IF ev.e >= 0 THEN PowOp(ev.a, ev.e, ev.d, ev.r)
                                              ELSE ev.e = 0 - 1 /\ InvOp(ev.a, ev.k, ev.d, ev.r)
    [] ev.op = "det"                       -> DetOp(ev.a, ev.k, ev.v)
    [] ev.op = "inv"                       -> InvOp(ev.a, ev.k, ev.d, ev.r)
    [] ev.op = "lu"                        -> LuOp(ev.a, ev.d, ev.d2, ev.r, ev.r2)
    [] ev.op = "chol"                      -> CholOp(ev.a, ev.d, ev.r)
    [] ev.op = "convf"                     -> ConvOp(ev.a, ev.b, 0, ev.d, ev.r)
    [] ev.op = "conv"                      -> ConvOp(ev.a, ev.b, 1, ev.d, ev.r)
    [] ev.op = "convv"                     -> ConvOp(ev.a, ev.b, 2, ev.d, ev.r)
    [] ev.op = "mean"                      -> MeanOp(ev.a, ev.v)
    [] ev.op = "median"                    -> MedianOp(ev.a, ev.v)
    [] ev.op = "var"                       -> VarOp(ev.a, ev.v)
    [] ev.op = "stddev"                    -> StdDevOp(ev.a, ev.v)

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "prog" -> one' = ev.one /\ up' = ev.up /\ reg' = [r \in Regs |-> <<>>]
       [] ev.op = "load" -> Keep(ev.d, ev.r)
       [] OTHER          -> ev.st = "ok" /\ Returned(ev)

TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
Matched == TLCGet("stats").diameter - 1
TraceAccepted == PrintT(<<"MATCHED", Matched, Len(Trace)>>)
=============================================================================
