-------------------------------- MODULE Float --------------------------------
(***************************************************************************)
(* The library over floating-point numbers: every result is the exact one  *)
(* up to rounding.                                                         *)
(*                                                                         *)
(* Floating-point numbers are dyadic rationals.  In one calling program    *)
(* all of them, results included, are multiples of some power of two, and  *)
(* are written as the integers (Big) they are multiples by; one is the     *)
(* integer that stands for 1.0, so the product x*y is written x*y/one.  up *)
(* is 2^p for a mantissa of p bits: the unit roundoff is 1/up.             *)
(*                                                                         *)
(* An action is enabled for every result within the error bound of its     *)
(* operation - the bounds of the standard model of rounding, for any order *)
(* of evaluation, with a factor of two to spare - and the caller goes on   *)
(* with the result it got: rounding is the nondeterminism of this state    *)
(* machine.                                                                *)
(***************************************************************************)
EXTENDS Big, FiniteSets

VARIABLES reg, one, up
fvars == <<reg, one, up>>

Rows(A) == Len(A)
Cols(A) == Len(A[1])
Mk(R, C, f(_, _)) == TLCEval([i \in 1 .. R |-> TLCEval([j \in 1 .. C |-> f(i, j)])])
IsMat(X, R, C) == DOMAIN X = 1 .. R /\ \A i \in 1 .. R : DOMAIN X[i] = 1 .. C
SameShape(A, B) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
Square(A) == Rows(A) = Cols(A)
Trans(A) == LET F(i, j) == A[j][i] IN Mk(Cols(A), Rows(A), F)
MAbs(A) == LET F(i, j) == BAbs(A[i][j]) IN Mk(Rows(A), Cols(A), F)
AllEq(X, Y) == \A i \in 1 .. Rows(Y) : \A j \in 1 .. Cols(Y) : BEq(X[i][j], Y[i][j])

(* |x - y| <= k * mag / up *)
Close(x, y, k, mag) == BLeq(BMul(BAbs(BSub(x, y)), up), BTimes(k, mag))
Rounded(x, y) == Close(x, y, 1, BAbs(y))             \* y rounded to the nearest

Dot(u, v) == Norm(FoldLeftDomain(LAMBDA acc, k : BAdd(acc, BMul(u[k], v[k])), <<>>, u))
MMul(A, B) == LET Bt == Trans(B)
                  F(i, j) == Dot(A[i], Bt[j])
              IN Mk(Rows(A), Cols(B), F)
RECURSIVE MPow(_, _)
MPow(A, e) == IF e = 1 THEN A ELSE MMul(A, MPow(A, e - 1))
SumSeq(f) == Norm(FoldLeft(LAMBDA acc, x : BAdd(acc, x), <<>>, f))
Elements(A) == FlattenSeq(A)
Identity(n) == LET F(i, j) == IF i = j THEN one ELSE <<>> IN Mk(n, n, F)

(* ---- determinant by expansion; products of the row sums bound it ---- *)
Minor(A, p, q) == LET F(i, j) == A[IF i < p THEN i ELSE i + 1][IF j < q THEN j ELSE j + 1]
                  IN Mk(Rows(A) - 1, Cols(A) - 1, F)
RECURSIVE Det(_)
Det(A) ==
  IF A = <<>> THEN <<1>>
  ELSE IF Rows(A) = 1 THEN A[1][1]
  ELSE IF Rows(A) = 2 THEN Norm(BSub(BMul(A[1][1], A[2][2]), BMul(A[1][2], A[2][1])))
  ELSE Norm(FoldLeftDomain(LAMBDA acc, j :
              IF A[1][j] = <<>> THEN acc
              ELSE LET t == BMul(A[1][j], Det(Minor(A, 1, j))) IN IF j % 2 = 1 THEN BAdd(acc, t) ELSE BSub(acc, t),
            <<>>, A))
RowSums(A) == LET P == MAbs(A) IN TLCEval([i \in 1 .. Rows(A) |-> SumSeq(P[i])])
Product(f, skip) == FoldLeftDomain(LAMBDA acc, k : IF k = skip THEN acc ELSE Norm(BMul(acc, f[k])), <<1>>, f)
Cofactor(A, i, j) == LET m == IF Rows(A) = 1 THEN <<1>> ELSE Det(Minor(A, i, j)) IN IF (i + j) % 2 = 0 THEN m ELSE BNeg(m)

(* ---- the state machine ---- *)
Keep(d, X) == reg' = [reg EXCEPT ![d] = X] /\ UNCHANGED <<one, up>>
Keep2(d, X, d2, Y) == reg' = [reg EXCEPT ![d] = X, ![d2] = Y] /\ UNCHANGED <<one, up>>
Observe == UNCHANGED fvars
Each(A, X, P(_, _)) == IsMat(X, Rows(A), Cols(A)) /\ \A i \in 1 .. Rows(A) : \A j \in 1 .. Cols(A) : P(i, j)

SumOp(a, b, d, X) == LET A == reg[a] B == reg[b] P(i, j) == Rounded(X[i][j], BAdd(A[i][j], B[i][j]))
                     IN SameShape(A, B) /\ Each(A, X, P) /\ Keep(d, X)
SubOp(a, b, d, X) == LET A == reg[a] B == reg[b] P(i, j) == Rounded(X[i][j], BSub(A[i][j], B[i][j]))
                     IN SameShape(A, B) /\ Each(A, X, P) /\ Keep(d, X)
SumScalar(a, s, d, X) == LET A == reg[a] P(i, j) == Rounded(X[i][j], BAdd(A[i][j], s)) IN Each(A, X, P) /\ Keep(d, X)
SubScalar(a, s, d, X) == LET A == reg[a] P(i, j) == Rounded(X[i][j], BSub(A[i][j], s)) IN Each(A, X, P) /\ Keep(d, X)
MulScalar(a, s, d, X) == LET A == reg[a] P(i, j) == Rounded(BMul(X[i][j], one), BMul(A[i][j], s)) IN Each(A, X, P) /\ Keep(d, X)
DivScalar(a, s, d, X) == LET A == reg[a] P(i, j) == Rounded(BMul(X[i][j], s), BMul(A[i][j], one)) IN Each(A, X, P) /\ Keep(d, X)
AbsOp(a, d, X) == LET A == reg[a] P(i, j) == BEq(X[i][j], BAbs(A[i][j])) IN Each(A, X, P) /\ Keep(d, X)
TransOp(a, d, X) == AllEq(X, Trans(reg[a])) /\ IsMat(X, Cols(reg[a]), Rows(reg[a])) /\ Keep(d, X)

(* sums of m products *)
NearProduct(A, B, X) ==
  LET C == MMul(A, B)
      M == MMul(MAbs(A), MAbs(B))
      P(i, j) == Close(BMul(X[i][j], one), C[i][j], 2 * Cols(A) + 2, M[i][j])
  IN Cols(A) = Rows(B) /\ Each(C, X, P)
MultOp(a, b, d, X) == NearProduct(reg[a], reg[b], X) /\ Keep(d, X)
(* Strassen's products are bounded by the whole of the operands *)
StrassenOp(a, b, d, X) ==
  LET A == reg[a] B == reg[b]
      C == MMul(A, B)
      m == Norm(BMul(SumSeq(Elements(MAbs(A))), SumSeq(Elements(MAbs(B)))))
      P(i, j) == Close(BMul(X[i][j], one), C[i][j], 32, m)
  IN IsMat(A, 2, 2) /\ IsMat(B, 2, 2) /\ Each(C, X, P) /\ Keep(d, X)
PowOp(a, e, d, X) ==
  LET A == reg[a]
  IN IF e = 0 THEN AllEq(X, Identity(Rows(A))) /\ Keep(d, X)
     ELSE LET C == MPow(A, e)
              M == MPow(MAbs(A), e)
              o == BPow(one, e - 1)
              Q(i, j) == Close(BMul(X[i][j], o), C[i][j], 2 * e * Rows(A) + 2, M[i][j])
          IN Square(A) /\ Each(A, X, Q) /\ Keep(d, X)

(* the k-fold rounding error of a product of row sums; k is a small multiple *)
(* for closed forms, and leaves room for the growth of an elimination        *)
DetOp(a, k, v) ==
  LET A == reg[a] IN
  /\ Square(A)
  /\ Close(BMul(v, BPow(one, Rows(A) - 1)), Det(A), k, Product(RowSums(A), 0))
  /\ Observe
InvOp(a, k, d, X) ==
  LET A == reg[a]
      n == Rows(A)
      s == RowSums(A)
      D == Det(A)
      all == Product(s, 0)
      o2 == Norm(BMul(one, one))
      P(i, j) == Close(BMul(X[i][j], D), BMul(Cofactor(A, j, i), o2), k,
                       Norm(BAdd(BMul(Product(s, j), o2), BMul(BAbs(X[i][j]), all))))
  IN Square(A) /\ ~BZero(D) /\ Each(A, X, P) /\ Keep(d, X)

(* factors reproduce A up to the rounding of their own product *)
LuOp(a, d, d2, L, U) ==
  LET A == reg[a]
      n == Rows(A)
      C == MMul(L, U)
      M == MMul(MAbs(L), MAbs(U))
      P(i, j) == Close(C[i][j], BMul(A[i][j], one), 2 * n + 2, M[i][j])
  IN /\ Square(A) /\ IsMat(L, n, n) /\ IsMat(U, n, n)
     /\ \A i \in 1 .. n : \A j \in 1 .. n :
          /\ i = j => ~BZero(U[i][j]) /\ Close(BMul(L[i][i], U[i][i]), BMul(one, U[i][i]), 2 * n + 2, M[i][i])
          /\ i < j => BZero(L[i][j])
          /\ i > j => BZero(U[i][j])
     /\ Each(A, C, P)
     /\ Keep2(d, L, d2, U)
CholOp(a, d, L) ==
  LET A == reg[a]
      n == Rows(A)
      C == MMul(L, Trans(L))
      M == MMul(MAbs(L), MAbs(Trans(L)))
      P(i, j) == Close(C[i][j], BMul(A[i][j], one), 2 * n + 4, M[i][j])
  IN /\ Square(A) /\ IsMat(L, n, n)
     /\ \A i \in 1 .. n : \A j \in 1 .. n :
          /\ i = j => ~Negative(L[i][j]) /\ ~BZero(L[i][j])
          /\ i < j => BZero(L[i][j])
     /\ Each(A, C, P)
     /\ Keep(d, L)

(* convolution with a 3x3 kernel, off: how much of the border is cut off *)
ConvAt(A, K, p, q) ==
  Norm(FoldLeftDomain(LAMBDA acc, u : FoldLeftDomain(LAMBDA c, v :
         LET i == p - u + 1
             j == q - v + 1
         IN IF i >= 1 /\ i <= Rows(A) /\ j >= 1 /\ j <= Cols(A) THEN BAdd(c, BMul(K[u][v], A[i][j])) ELSE c,
       acc, K[u]), <<>>, K))
ConvOp(a, b, off, d, X) ==
  LET A == reg[a]
      K == reg[b]
      Aa == MAbs(A)
      Ka == MAbs(K)
      P(p, q) == Close(BMul(X[p][q], one), ConvAt(A, K, p + off, q + off), 20, ConvAt(Aa, Ka, p + off, q + off))
      R == Rows(A) + 2 - 2 * off
      C == Cols(A) + 2 - 2 * off
  IN /\ IsMat(K, 3, 3) /\ IsMat(X, R, C)
     /\ \A p \in 1 .. R : \A q \in 1 .. C : P(p, q)
     /\ Keep(d, X)

(* statistics of N elements *)
NearMean(A, v) ==
  LET f == Elements(A) IN Close(BTimes(Len(f), v), SumSeq(f), 2 * Len(f) + 2, SumSeq(Elements(MAbs(A))))
MeanOp(a, v) == NearMean(reg[a], v) /\ Observe
(* the middle elements by counting, the lower and the upper one; halving is exact *)
Middle(f, k) ==
  CHOOSE x \in {f[i] : i \in DOMAIN f} :
    /\ Cardinality({i \in DOMAIN f : ~BLeq(x, f[i])}) < k
    /\ Cardinality({i \in DOMAIN f : BLeq(f[i], x)}) >= k
MedianOp(a, v) ==
  LET f == Elements(reg[a])
      N == Len(f)
  IN /\ IF N % 2 = 1 THEN BEq(v, Middle(f, (N + 1) \div 2))
        ELSE Rounded(BTimes(2, v), Norm(BAdd(Middle(f, N \div 2), Middle(f, N \div 2 + 1))))
     /\ Observe
(* w stands for the variance, at the scale of a square.  The deviations      *)
(* D[i]/N from the mean inherit the rounding error of the mean and their own, *)
(* at most (N+3)/up times F[i]/N                                              *)
NearVar(A, w) ==
  LET f == Elements(A)
      N == Len(f)
      S == SumSeq(f)
      T == SumSeq(Elements(MAbs(A)))
      D == TLCEval([i \in 1 .. N |-> Norm(BSub(BTimes(N, f[i]), S))])
      F == TLCEval([i \in 1 .. N |-> Norm(BAdd(BTimes(N, BAbs(f[i])), T))])
      sq == Norm(FoldLeft(LAMBDA acc, x : BAdd(acc, Norm(BMul(x, x))), <<>>, D))
      cross == Norm(FoldLeftDomain(LAMBDA acc, i : BAdd(acc, Norm(BMul(BAbs(D[i]), F[i]))), <<>>, D))
      ff == Norm(FoldLeft(LAMBDA acc, x : BAdd(acc, Norm(BMul(x, x))), <<>>, F))
      err == BAbs(BSub(BTimes(N, BTimes(N, Norm(BTimes(N, w)))), sq))
  IN BLeq(BMul(Norm(BMul(err, up)), up),
          BAdd(BMul(BTimes(2 * N + 12, BAdd(cross, sq)), up), BTimes(2 * (N + 3) * (N + 3), ff)))
VarOp(a, v) == ~Negative(v) /\ NearVar(reg[a], Norm(BMul(v, one))) /\ Observe
StdDevOp(a, v) == ~Negative(v) /\ NearVar(reg[a], Norm(BMul(v, v))) /\ Observe
=============================================================================
