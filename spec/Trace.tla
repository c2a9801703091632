-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the real library a         *)
(* behaviour of MatrixLib?                                                 *)
(*                                                                         *)
(* Every line of the trace is one step of the calling program: "prog"      *)
(* starts a new program (scalar domain, and which aspects of the calls the *)
(* program is about), "load" stores a matrix, everything else is one call  *)
(* of the library with its arguments (registers, indices, scalars) and     *)
(* what was observed: status, returned values, operands afterwards,        *)
(* allocations, damaged memory around the operands, and whether the call   *)
(* left its process as it found it ("env": output written by anything but  *)
(* print, stream formatting, floating-point modes).  The specification     *)
(* keeps its own registers: what a call must return is computed from them, *)
(* never from logged operands.                                             *)
(*                                                                         *)
(* A status other than "ok" and "overflow_error" (crash, hang, terminate,  *)
(* memory error, another exception) has no action.                         *)
(***************************************************************************)
EXTENDS MatrixLib, Approx, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, about
tvars == <<vars, l, about>>

NoMat == <<>>
Regs == 0 .. 15

TraceInit == /\ l = 1
             /\ dom = Ints
             /\ reg = [r \in Regs |-> NoMat]
             /\ err = "ok"
             /\ about = [pure |-> 0, alloc |-> 0, frame |-> 0, adopt |-> 0, env |-> 0]

MatrixResult(ev) == ev.r = reg'[ev.d]

(* the call returned normally *)
Returned(ev) ==
  CASE ev.op \in {"sum", "add"}            -> SumOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"sub", "minus"}          -> SubOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"sums", "adds", "sadd"}  -> SumScalar(ev.a, ev.s, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"subs", "minuss"}        -> SubScalar(ev.a, ev.s, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"mults", "muls", "smul"} -> MulScalar(ev.a, ev.s, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"div", "divop"}          -> DivScalar(ev.a, ev.s, ev.d, ev.r)
    [] ev.op = "divr"                      -> DivRounded(ev.a, ev.s, ev.r, ev.k)
    [] ev.op = "div~"                      -> NearQuot(reg[ev.a], ev.s, ev.r, ev.sc, ev.tol) /\ Observe
    [] ev.op = "abs"                       -> AbsOp(ev.a, ev.d) /\ MatrixResult(ev)
    [] ev.op = "inc"                       -> IncOp(ev.a, ev.d) /\ MatrixResult(ev)
    [] ev.op = "dec"                       -> DecOp(ev.a, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"mult", "mul"}           -> MultOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op = "strassen"                  -> StrassenOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op = "det"                       -> DetOp(ev.a, ev.v)
    [] ev.op = "inv"                       -> InvOp(ev.a, ev.d, ev.r)
    [] ev.op = "inv~"                      -> NearInverse(reg[ev.a], ev.r, ev.sc, ev.tol) /\ Observe
    [] ev.op = "pow"                       -> IF ev.e >= 0 THEN PowOp(ev.a, ev.e, ev.d) /\ MatrixResult(ev)
                                              ELSE PowNeg(ev.a, ev.e, ev.d, ev.r)
    [] ev.op = "powbig"                    -> IF ev.e > 0 THEN PowBig(ev.a, ev.bits, ev.d) /\ MatrixResult(ev)
                                              ELSE PowBigNeg(ev.a, ev.bits, ev.d, ev.r)
    [] ev.op = "pow~"                      -> NearInverse(MPow(dom, reg[ev.a], 0 - ev.e), ev.r, ev.sc, ev.tol) /\ Observe
    [] ev.op = "lu"                        -> LuOp(ev.a, ev.d, ev.d2, ev.r, ev.r2)
    [] ev.op = "chol"                      -> CholOp(ev.a, ev.d, ev.r)
    [] ev.op = "trans"                     -> TransOp(ev.a, ev.d) /\ MatrixResult(ev)
    [] ev.op = "swapr"                     -> SwapRowsOp(ev.a, ev.i, ev.j) /\ ev.pa = reg'[ev.a]
    [] ev.op = "swapc"                     -> SwapColsOp(ev.a, ev.i, ev.j) /\ ev.pa = reg'[ev.a]
    [] ev.op = "minor"                     -> MinorOp(ev.a, ev.i, ev.j, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"catv", "catV"}          -> CatVOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"cath", "catH"}          -> CatHOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op = "catpair"                   -> CatPairOp(ev.a, ev.b, ev.d, ev.d2) /\ MatrixResult(ev) /\ ev.r2 = reg'[ev.d2]
    [] ev.op = "fill"                      -> FillOp(ev.R, ev.C, ev.s, ev.d) /\ MatrixResult(ev)
    [] ev.op = "zeros"                     -> FillOp(ev.R, ev.C, 0, ev.d) /\ MatrixResult(ev)
    [] ev.op \in {"ones", "onesu"}         -> FillOp(ev.R, ev.C, ev.one, ev.d) /\ MatrixResult(ev)
    [] ev.op = "onessq"                    -> FillOp(ev.R, ev.R, ev.one, ev.d) /\ MatrixResult(ev)
    [] ev.op = "eye"                       -> EyeOp(ev.R, ev.one, ev.d) /\ MatrixResult(ev)
    [] ev.op = "eyes"                      -> EyeOp(ev.R, ev.s, ev.d) /\ MatrixResult(ev)
    [] ev.op = "cmp"                       -> CompareOp(ev.a, ev.b, ev.eps, ev.v)
    [] ev.op = "isid"                      -> IsIdentityOp(ev.a, ev.one, ev.v)
    [] ev.op = "issym"                     -> IsSymmetricOp(ev.a, ev.v)
    [] ev.op = "hist"                      -> HistOp(ev.a, ev.v)
    [] ev.op = "cumhist"                   -> CumHistOp(ev.a, ev.v)
    [] ev.op = "mean"                      -> MeanOp(ev.a, ev.v)
    [] ev.op = "mean~"                     -> NearMean(reg[ev.a], ev.v, ev.sc, ev.tol) /\ Observe
    [] ev.op = "median"                    -> MedianOp(ev.a, ev.v)
    [] ev.op = "median2"                   -> MedianHalves(ev.a, ev.v)
    [] ev.op = "var"                       -> VarOp(ev.a, ev.v)
    [] ev.op = "var~"                      -> NearVar(reg[ev.a], ev.v, ev.sc, ev.tol) /\ Observe
    [] ev.op = "stddev"                    -> StdDevOp(ev.a, ev.v)
    [] ev.op = "stddev~"                   -> NearStdDev(reg[ev.a], ev.v, ev.sc, ev.tol) /\ Observe
    [] ev.op = "conv"                      -> ConvSameOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op = "convf"                     -> ConvFullOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op = "convv"                     -> ConvValidOp(ev.a, ev.b, ev.d) /\ MatrixResult(ev)
    [] ev.op = "print"                     -> PrintOp(ev.a, ev.v.tok, ev.v.text)

(* the call threw std::overflow_error *)
Threw(ev) ==
  CASE ev.op \in {"div", "divop", "div~", "divr"}  -> DivByZero(ev.a, ev.s)
    [] ev.op \in {"inv", "inv~"}           -> InvSingular(ev.a)
    [] ev.op \in {"pow", "pow~", "powbig"}           -> PowSingular(ev.a, ev.e)
    [] ev.op = "lu"                        -> LuZeroPivot(ev.a)
    [] OTHER                               -> FALSE

(* operands after the call; the in-place exchanges state theirs themselves *)
OperandsKept(ev) ==
  /\ "pa" \in DOMAIN ev /\ ev.op \notin {"swapr", "swapc"} => ev.pa = reg[ev.a]
  /\ "pb" \in DOMAIN ev => ev.pb = reg[ev.b]

(* operations that may allocate: the histograms (their result is a map),   *)
(* printing, and any call that reports an error                            *)
MayAllocate(ev) == ev.op \in {"hist", "cumhist", "print"} \/ ev.st = "overflow_error"

(* a program that is about nothing but allocation or memory: whatever was     *)
(* returned is what the caller now holds                                      *)
Adopt(ev) ==
  /\ ev.st \in {"ok", "overflow_error"}
  /\ reg' = [r \in Regs |-> IF r = ev.d /\ "r" \in DOMAIN ev THEN ev.r
                            ELSE IF r = ev.d2 /\ "r2" \in DOMAIN ev THEN ev.r2
                            ELSE IF "a" \in DOMAIN ev /\ r = ev.a /\ "pa" \in DOMAIN ev THEN ev.pa
                            ELSE reg[r]]
  /\ err' = ev.st
  /\ UNCHANGED dom

CallStep(ev) ==
  /\ \/ about.adopt = 0 /\ ev.st = "ok" /\ Returned(ev)
     \/ about.adopt = 0 /\ ev.st = "overflow_error" /\ Threw(ev)
     \/ about.adopt = 1 /\ Adopt(ev)
  /\ about.pure = 1 => OperandsKept(ev)
  /\ about.alloc = 1 => (MayAllocate(ev) \/ ev.al = 0)
  /\ about.frame = 1 => "frame" \notin DOMAIN ev
  /\ about.env = 1 => "env" \notin DOMAIN ev
  /\ UNCHANGED about

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "prog" -> /\ dom' = (IF ev.m = 0 THEN Ints ELSE IF ev.m < 0 THEN ExtInts ELSE Residues(ev.m))
                            /\ about' = ev.about
                            /\ err' = "ok"
                            /\ reg' = [r \in Regs |-> NoMat]
       [] ev.op = "load" -> Store(ev.d, ev.r) /\ UNCHANGED about
       [] OTHER          -> CallStep(ev)

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* registers only ever hold matrices over the domain *)
TypeOK == \A r \in Regs : reg[r] = NoMat \/ IsMatOver(dom, reg[r], Rows(reg[r]), Cols(reg[r]))

Matched == TLCGet("stats").diameter - 1
TraceAccepted == PrintT(<<"MATCHED", Matched, Len(Trace)>>)
=============================================================================
