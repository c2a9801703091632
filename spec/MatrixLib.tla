------------------------------ MODULE MatrixLib ------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* State: the matrices a calling program holds (reg), the scalar domain    *)
(* its element type stands for (dom), and the outcome of the last call     *)
(* (err).  One action per public operation; an action is enabled exactly   *)
(* for the argument shapes the operation accepts, and says what the        *)
(* operation returns.  Operations that return something other than a       *)
(* matrix take the returned value as a parameter: the action is enabled    *)
(* only for the right one.  The same holds where the meaning is a relation *)
(* (inverse, LU, Cholesky, quotients).                                     *)
(*                                                                         *)
(* Everything an operation does not mention is unchanged: no call writes   *)
(* to an operand, except the two in-place exchanges.                       *)
(***************************************************************************)
EXTENDS Mat

VARIABLES dom, reg, err
vars == <<dom, reg, err>>

Result(d, M)           == reg' = [reg EXCEPT ![d] = M] /\ err' = "ok" /\ UNCHANGED dom
Result2(d, M, d2, N)   == reg' = [reg EXCEPT ![d] = M, ![d2] = N] /\ err' = "ok" /\ UNCHANGED dom
Observe                == err' = "ok" /\ UNCHANGED <<dom, reg>>
Fail                   == err' = "overflow_error" /\ UNCHANGED <<dom, reg>>

(* the caller stores a matrix *)
Store(d, M) == Result(d, M)

(* ---- element-wise ---- *)
SumOp(a, b, d)      == SameShape(reg[a], reg[b]) /\ Result(d, MSum(dom, reg[a], reg[b]))
SubOp(a, b, d)      == SameShape(reg[a], reg[b]) /\ Result(d, MSub(dom, reg[a], reg[b]))
SumScalar(a, s, d)  == Result(d, SSum(dom, reg[a], s))
SubScalar(a, s, d)  == Result(d, SSub(dom, reg[a], s))
MulScalar(a, s, d)  == Result(d, SMul(dom, reg[a], s))
AbsOp(a, d)         == dom.m <= 0 /\ Result(d, MAbs(reg[a]))
IncOp(a, d)         == Result(d, SSum(dom, reg[a], One(dom)))
DecOp(a, d)         == Result(d, SSub(dom, reg[a], One(dom)))
DivScalar(a, s, d, X) == s # 0 /\ IsMQuot(dom, reg[a], s, X) /\ Result(d, X)
DivRounded(a, s, X, K) == s # 0 /\ IsMRoundedQuot(dom, reg[a], s, X, K) /\ Observe
DivByZero(a, s)     == s = 0 /\ Fail

(* ---- products ---- *)
MultOp(a, b, d)     == Cols(reg[a]) = Rows(reg[b]) /\ Result(d, MMul(dom, reg[a], reg[b]))
StrassenOp(a, b, d) == IsMat(reg[a], 2, 2) /\ IsMat(reg[b], 2, 2) /\ Result(d, MMul(dom, reg[a], reg[b]))

(* ---- linear algebra ---- *)
DetOp(a, v)         == Square(reg[a]) /\ v = Det(dom, reg[a]) /\ Observe
InvOp(a, d, X)      == Square(reg[a]) /\ IsInverse(dom, reg[a], X) /\ Result(d, X)
InvSingular(a)      == Square(reg[a]) /\ Det(dom, reg[a]) = 0 /\ Fail
PowOp(a, e, d)      == Square(reg[a]) /\ e >= 0 /\ Result(d, MPow(dom, reg[a], e))
(* e < 0: X is the inverse of the (-e)-th power, which is the (-e)-th power of the inverse *)
PowNeg(a, e, d, X)  == Square(reg[a]) /\ e < 0 /\ IsInverse(dom, MPow(dom, reg[a], 0 - e), X) /\ Result(d, X)
(* the same for exponents given by the binary digits of their absolute value *)
PowBig(a, bits, d)       == Square(reg[a]) /\ Result(d, MPowDigits(dom, reg[a], bits))
PowBigNeg(a, bits, d, X) == Square(reg[a]) /\ IsInverse(dom, MPowDigits(dom, reg[a], bits), X) /\ Result(d, X)
PowSingular(a, e)   == Square(reg[a]) /\ e < 0 /\ Det(dom, reg[a]) = 0 /\ Fail
LuOp(a, d, d2, L, U) == Square(reg[a]) /\ LUExists(dom, reg[a]) /\ IsLU(dom, reg[a], L, U) /\ Result2(d, L, d2, U)
LuZeroPivot(a)      == Square(reg[a]) /\ ~LUExists(dom, reg[a]) /\ Fail
CholOp(a, d, L)     == Square(reg[a]) /\ IsChol(dom, reg[a], L) /\ Result(d, L)

(* ---- data movement (0-based indices, as in the API) ---- *)
TransOp(a, d)       == Result(d, Trans(reg[a]))
SwapRowsOp(a, i, j) == i < Rows(reg[a]) /\ j < Rows(reg[a]) /\ Result(a, SwapRows(reg[a], i + 1, j + 1))
SwapColsOp(a, i, j) == i < Cols(reg[a]) /\ j < Cols(reg[a]) /\ Result(a, SwapCols(reg[a], i + 1, j + 1))
MinorOp(a, i, j, d) == Square(reg[a]) /\ i < Rows(reg[a]) /\ j < Rows(reg[a]) /\ Result(d, Minor(reg[a], i + 1, j + 1))
CatVOp(a, b, d)     == Cols(reg[a]) = Cols(reg[b]) /\ Result(d, CatV(reg[a], reg[b]))
CatHOp(a, b, d)     == Rows(reg[a]) = Rows(reg[b]) /\ Result(d, CatH(reg[a], reg[b]))
CatPairOp(a, b, d, d2) == Square(reg[a]) /\ SameShape(reg[a], reg[b]) /\
                          Result2(d, CatV(reg[a], reg[b]), d2, CatH(reg[a], reg[b]))

(* ---- constructors ---- *)
FillOp(R, C, s, d)  == Result(d, Fill(dom, R, C, s))
EyeOp(n, s, d)      == Result(d, Eye(dom, n, s))

(* ---- predicates ---- *)
CompareOp(a, b, eps, v) == SameShape(reg[a], reg[b]) /\ v = (IF Within(dom, reg[a], reg[b], eps) THEN 1 ELSE 0) /\ Observe
IsIdentityOp(a, one, v) == Square(reg[a]) /\ v = (IF IsIdentity(dom, reg[a], one) THEN 1 ELSE 0) /\ Observe
IsSymmetricOp(a, v) == Square(reg[a]) /\ v = (IF IsSymmetric(reg[a]) THEN 1 ELSE 0) /\ Observe

(* ---- histograms and statistics ---- *)
HistOp(a, h)        == IsHist(reg[a], h) /\ Observe
CumHistOp(a, h)     == IsCumHist(reg[a], h) /\ Observe
MeanOp(a, v)        == IsMean(dom, reg[a], v) /\ Observe
(* in the integers: v2 is twice the median if halves are representable, *)
(* otherwise the median is truncated                                    *)
MedianOp(a, v)      == v = TruncDiv(Median2(reg[a]), 2) /\ Observe
MedianHalves(a, v2) == v2 = Median2(reg[a]) /\ Observe
VarOp(a, v)         == IsVar(dom, reg[a], v) /\ Observe
StdDevOp(a, v)      == IsStdDev(dom, reg[a], v) /\ Observe

(* ---- convolution ---- *)
ConvSameOp(a, b, d)  == IsMat(reg[b], 3, 3) /\ Result(d, ConvSame(dom, reg[a], reg[b]))
ConvFullOp(a, b, d)  == IsMat(reg[b], 3, 3) /\ Result(d, ConvFull(dom, reg[a], reg[b]))
ConvValidOp(a, b, d) == IsMat(reg[b], 3, 3) /\ Rows(reg[a]) >= 3 /\ Cols(reg[a]) >= 3 /\
                        Result(d, ConvValid(dom, reg[a], reg[b]))

(* ---- output ---- *)
PrintOp(a, tok, text) == IsMat(tok, Rows(reg[a]), Cols(reg[a])) /\ text = PrintText(tok) /\ Observe
=============================================================================
