-------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Which calls compile.  Shapes and element types are part of a matrix's   *)
(* type, so a call that MatrixLib has no action for - because the shapes   *)
(* do not fit - is one the compiler has to refuse, and one whose action is *)
(* enabled has to be accepted.                                             *)
(*                                                                         *)
(* A trace has lines that set up two operands of given shapes and element  *)
(* types, and lines that say whether a call on them compiled.  The         *)
(* operands stand for all of their shape: ones on the diagonal, so that    *)
(* every value-dependent condition (invertible, positive definite, ...)    *)
(* holds whenever the shape allows it.                                     *)
(***************************************************************************)
EXTENDS MatrixLib, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ta, tb                     \* element types of the operands 0 and 1
svars == <<l, ta, tb>>

Like(R, C) == LET F(i, j) == IF i = j THEN 1 ELSE 0 IN Mk(R, C, F)
A == reg[0]
B == reg[1]

(* the call has a meaning *)
Meaning(op) ==
  CASE op \in {"sum", "add"}    -> ENABLED SumOp(0, 1, 2)
    [] op \in {"sub", "minus"}  -> ENABLED SubOp(0, 1, 2)
    [] op \in {"mult", "mul"}   -> ENABLED MultOp(0, 1, 2)
    [] op = "strassen"          -> ENABLED StrassenOp(0, 1, 2)
    [] op = "compare"           -> \E v \in {0, 1} : ENABLED CompareOp(0, 1, 1, v)
    [] op = "conv"              -> ENABLED ConvSameOp(0, 1, 2)
    [] op = "convf"             -> ENABLED ConvFullOp(0, 1, 2)
    [] op = "convv"             -> ENABLED ConvValidOp(0, 1, 2)
    [] op = "catV"              -> ENABLED CatVOp(0, 1, 2)
    [] op = "catH"              -> ENABLED CatHOp(0, 1, 2)
    [] op = "cat"               -> ENABLED CatVOp(0, 1, 2) \/ ENABLED CatHOp(0, 1, 2)
    [] op = "det"               -> ENABLED DetOp(0, 1)
    [] op = "inv"               -> ENABLED InvOp(0, 2, A)
    [] op = "pow"               -> ENABLED PowOp(0, 2, 2)
    [] op = "lu"                -> ENABLED LuOp(0, 2, 3, A, A)
    [] op = "chol"              -> ENABLED CholOp(0, 2, A)
    [] op = "minor"             -> ENABLED MinorOp(0, 0, 0, 2)
    [] op = "isid"              -> \E v \in {0, 1} : ENABLED IsIdentityOp(0, 1, v)
    [] op = "issym"             -> \E v \in {0, 1} : ENABLED IsSymmetricOp(0, v)
    [] op = "trans"             -> ENABLED TransOp(0, 2)
    [] op = "swapr"             -> ENABLED SwapRowsOp(0, 0, 0)
    [] op = "swapc"             -> ENABLED SwapColsOp(0, 0, 0)
    [] op \in {"sums", "adds", "sadd"}  -> ENABLED SumScalar(0, 1, 2)
    [] op \in {"subs", "minuss"}        -> ENABLED SubScalar(0, 1, 2)
    [] op \in {"mults", "muls", "smul"} -> ENABLED MulScalar(0, 1, 2)
    [] op \in {"div", "divop"}          -> ENABLED DivScalar(0, 1, 2, A)
    [] op \in {"mean", "median", "var", "stddev", "hist", "cumhist", "abs", "inc", "dec", "print"} -> TRUE

(* calls with a meaning that the library does not offer, or only in part: neither way is an error *)
Optional(op) ==
  \/ op \in {"catV", "catH"} /\ ~(Square(A) /\ SameShape(A, B))
  \/ op = "cat" /\ SameShape(A, B) /\ ~Square(A)
  \/ op = "minor" /\ Rows(A) = 1

Fits(op) == ta = tb /\ Meaning(op)
Judge(op, compiled) == compiled = Fits(op) \/ (Fits(op) /\ Optional(op))

TraceInit == l = 1 /\ dom = Ints /\ reg = [r \in 0 .. 3 |-> <<>>] /\ err = "ok" /\ ta = "" /\ tb = ""
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "operands"
     THEN /\ reg' = [reg EXCEPT ![0] = Like(ev.a[1], ev.a[2]), ![1] = Like(ev.b[1], ev.b[2])]
          /\ ta' = ev.ta /\ tb' = ev.tb /\ UNCHANGED <<dom, err>>
     ELSE Judge(ev.op, ev.compiled) /\ UNCHANGED <<dom, reg, err, ta, tb>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, svars>>
Matched == TLCGet("stats").diameter - 1
TraceAccepted == PrintT(<<"MATCHED", Matched, Len(Trace)>>)
=============================================================================
