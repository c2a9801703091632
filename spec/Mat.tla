--------------------------------- MODULE Mat ---------------------------------
(***************************************************************************)
(* The mathematical meaning of every operation of the matrix library.      *)
(* A matrix with R rows and C columns is a sequence of R sequences of      *)
(* length C (1-based; the library's indices are 0-based and are converted  *)
(* where they appear as arguments).                                        *)
(***************************************************************************)
EXTENDS Ring, FiniteSets, SequencesExt, FiniteSetsExt

Rows(A) == Len(A)
Cols(A) == Len(A[1])

(* TLCEval forces eager evaluation: purely a matter of speed *)
Mk(R, C, f(_, _)) == TLCEval([i \in 1 .. R |-> TLCEval([j \in 1 .. C |-> f(i, j)])])

IsMat(X, R, C) == /\ DOMAIN X = 1 .. R
                  /\ \A i \in 1 .. R : DOMAIN X[i] = 1 .. C
IsMatOver(D, X, R, C) == IsMat(X, R, C) /\ TLCEval(\A i \in 1 .. R : \A j \in 1 .. C : Elem(D, X[i][j]))
SameShape(A, B) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
Square(A) == Rows(A) = Cols(A)

(* ------------------------------ construction --------------------------- *)
Fill(D, R, C, s) == LET F(i, j) == Red(D, s) IN Mk(R, C, F)
Eye(D, n, s) == LET F(i, j) == IF i = j THEN Red(D, s) ELSE 0 IN Mk(n, n, F)

(* ------------------------------ element-wise --------------------------- *)
Map2(D, A, B, f(_, _, _)) == LET F(i, j) == f(D, A[i][j], B[i][j]) IN Mk(Rows(A), Cols(A), F)
MapS(D, A, s, f(_, _, _)) == LET F(i, j) == f(D, A[i][j], s) IN Mk(Rows(A), Cols(A), F)
MSum(D, A, B) == Map2(D, A, B, Add)
MSub(D, A, B) == Map2(D, A, B, Sub)
SSum(D, A, s) == MapS(D, A, s, Add)
SSub(D, A, s) == MapS(D, A, s, Sub)
SMul(D, A, s) == MapS(D, A, s, Mul)
MAbs(A) == LET F(i, j) == AbsI(A[i][j]) IN Mk(Rows(A), Cols(A), F)
IsMRoundedQuot(D, A, s, X, K) ==
  /\ IsMatOver(D, X, Rows(A), Cols(A))
  /\ TLCEval(\A i \in 1 .. Rows(A) : \A j \in 1 .. Cols(A) : IsRoundedQuot(D, A[i][j], s, X[i][j], K[i][j]))
IsMQuot(D, A, s, X) ==
  /\ IsMatOver(D, X, Rows(A), Cols(A))
  /\ TLCEval(\A i \in 1 .. Rows(A) : \A j \in 1 .. Cols(A) : IsQuot(D, A[i][j], s, X[i][j]))

(* -------------------------------- product ------------------------------ *)
Dot(D, u, v) == IF D.m >= 0 THEN FoldLeftDomain(LAMBDA acc, k : Red(D, acc + u[k] * v[k]), 0, u)
                ELSE FoldLeftDomain(LAMBDA acc, k : AddE(acc, MulE(u[k], v[k])), 0, u)
Col(B, j) == TLCEval([k \in 1 .. Rows(B) |-> B[k][j]])
Trans(A) == LET F(i, j) == A[j][i] IN Mk(Cols(A), Rows(A), F)
MMul(D, A, B) == LET Bt == Trans(B)
                     F(i, j) == Dot(D, A[i], Bt[j])
                 IN Mk(Rows(A), Cols(B), F)

(* ----------------------------- data movement --------------------------- *)
SwapRows(A, p, q) == LET F(i, j) == IF i = p THEN A[q][j] ELSE IF i = q THEN A[p][j] ELSE A[i][j]
                     IN Mk(Rows(A), Cols(A), F)
SwapCols(A, p, q) == LET F(i, j) == IF j = p THEN A[i][q] ELSE IF j = q THEN A[i][p] ELSE A[i][j]
                     IN Mk(Rows(A), Cols(A), F)
Minor(A, p, q) == LET F(i, j) == A[IF i < p THEN i ELSE i + 1][IF j < q THEN j ELSE j + 1]
                  IN Mk(Rows(A) - 1, Cols(A) - 1, F)
CatV(A, B) == A \o B
CatH(A, B) == TLCEval([i \in 1 .. Rows(A) |-> A[i] \o B[i]])

(* ------------------------------ determinant ---------------------------- *)
(* By expansion along the first row: the definition, in any commutative    *)
(* ring.  DetField is the same function computed by elimination, which is  *)
(* what makes bigger matrices checkable; Laws.tla checks DetField =        *)
(* DetLaplace, and DetGauss.tla models the library's own elimination.      *)
RECURSIVE DetLaplace(_, _)
DetLaplace(D, A) ==
  IF Rows(A) = 0 THEN One(D)
  ELSE IF Rows(A) = 1 THEN A[1][1]
  ELSE FoldLeftDomain(LAMBDA acc, j :
         IF A[1][j] = 0 THEN acc
         ELSE LET t == Mul(D, A[1][j], DetLaplace(D, Minor(A, 1, j)))
              IN IF j % 2 = 1 THEN Add(D, acc, t) ELSE Sub(D, acc, t),
       0, A[1])

RECURSIVE DetField(_, _)
DetField(D, A) ==
  LET n == Rows(A)
      piv == SelectInSeq(A, LAMBDA row : row[1] # 0)
  IN IF n = 1 THEN A[1][1]
     ELSE IF piv = 0 THEN 0
     ELSE LET B == SwapRows(A, 1, piv)
              q == InvS(D, B[1][1])
              k == TLCEval([i \in 2 .. n |-> Mul(D, B[i][1], q)])
              F(i, j) == Red(D, B[i + 1][j + 1] - Mul(D, k[i + 1], B[1][j + 1]))
              d == Mul(D, B[1][1], DetField(D, Mk(n - 1, n - 1, F)))
          IN IF piv = 1 THEN d ELSE Neg(D, d)

(* Bird's division-free algorithm: any commutative ring, n^4 steps *)
BirdStep(D, A, X) ==
  LET n == Rows(A)
      tail == TLCEval([i \in 1 .. n + 1 |-> FoldLeftDomain(LAMBDA acc, j : IF j > i THEN Add(D, acc, X[j][j]) ELSE acc, 0, X)])
      F(i, j) == IF i > j THEN 0 ELSE IF i = j THEN Neg(D, tail[i]) ELSE X[i][j]
  IN MMul(D, Mk(n, n, F), A)
DetBird(D, A) ==
  LET n == Rows(A)
      v == FoldLeftDomain(LAMBDA X, k : IF k = 1 THEN X ELSE BirdStep(D, A, X), A, A)[1][1]
  IN IF n % 2 = 1 THEN v ELSE Neg(D, v)

Det(D, A) == IF D.field /\ Rows(A) > 3 THEN DetField(D, A)
             ELSE IF D.m # 0 /\ Rows(A) > 4 THEN DetBird(D, A)
             ELSE DetLaplace(D, A)

(* ------------------------------- inverse ------------------------------- *)
IsInverse(D, A, X) ==
  /\ IsMatOver(D, X, Rows(A), Rows(A))
  /\ MMul(D, A, X) = Eye(D, Rows(A), 1)
  /\ MMul(D, X, A) = Eye(D, Rows(A), 1)
Adjugate(D, A) == LET c(i, j) == LET t == IF Rows(A) = 1 THEN One(D) ELSE Det(D, Minor(A, j, i))
                                 IN IF (i + j) % 2 = 0 THEN t ELSE Neg(D, t)
                  IN Mk(Rows(A), Rows(A), c)
MInv(D, A) == SMul(D, Adjugate(D, A), InvS(D, Det(D, A)))   \* fields

(* -------------------------------- powers ------------------------------- *)
RECURSIVE MPow(_, _, _)
MPow(D, A, k) ==       \* k >= 0
  IF k = 0 THEN Eye(D, Rows(A), 1)
  ELSE IF k = 1 THEN A
  ELSE LET h == MPow(D, A, k \div 2)
           s == MMul(D, h, h)
       IN IF k % 2 = 0 THEN s ELSE MMul(D, s, A)
(* the exponent as its binary digits, most significant first *)
MPowDigits(D, A, bits) ==
  FoldLeft(LAMBDA X, b : LET q == MMul(D, X, X) IN IF b = 1 THEN MMul(D, q, A) ELSE q, Eye(D, Rows(A), 1), bits)
RECURSIVE MPowIter(_, _, _)
MPowIter(D, A, k) == IF k = 0 THEN Eye(D, Rows(A), 1) ELSE MMul(D, MPowIter(D, A, k - 1), A)

(* ------------------------------ decompositions ------------------------- *)
LeadingMinor(D, A, k) == Det(D, TLCEval([i \in 1 .. k |-> SubSeq(A[i], 1, k)]))
LUExists(D, A) == \A k \in 1 .. Rows(A) : LeadingMinor(D, A, k) # 0
IsUnitLower(D, L) == \A i, j \in 1 .. Rows(L) : (i = j => L[i][j] = One(D)) /\ (i < j => L[i][j] = 0)
IsUpper(U) == \A i, j \in 1 .. Rows(U) : i > j => U[i][j] = 0
IsLU(D, A, L, U) ==
  /\ IsMatOver(D, L, Rows(A), Rows(A)) /\ IsMatOver(D, U, Rows(A), Rows(A))
  /\ IsUnitLower(D, L) /\ IsUpper(U)
  /\ MMul(D, L, U) = A
IsChol(D, A, L) ==
  /\ IsMatOver(D, L, Rows(A), Rows(A))
  /\ \A i, j \in 1 .. Rows(A) : (i < j => L[i][j] = 0) /\ (i = j => Positive(D, L[i][j]))
  /\ D.m = 0 => \A i, j \in 1 .. Rows(A) : AbsI(L[i][j]) < 5000     \* keeps the product in TLC's range
  /\ MMul(D, L, Trans(L)) = A

(* ------------------------------ convolution ---------------------------- *)
At(A, i, j) == IF 1 <= i /\ i <= Rows(A) /\ 1 <= j /\ j <= Cols(A) THEN A[i][j] ELSE 0
ConvAt(D, A, K, p, q) ==     \* full convolution at 1-based (p, q)
  LET T(u, v) == K[u][v] * At(A, p - u + 1, q - v + 1)
      row(u) == Red(D, Red(D, T(u, 1)) + Red(D, T(u, 2)) + Red(D, T(u, 3)))
      te(u, v) == MulE(K[u][v], At(A, p - u + 1, q - v + 1))       \* the kernel is finite
      rowE(u) == AddE(AddE(te(u, 1), te(u, 2)), te(u, 3))
  IN IF D.m >= 0 THEN Red(D, row(1) + row(2) + row(3)) ELSE AddE(AddE(rowE(1), rowE(2)), rowE(3))
ConvFull(D, A, K)  == LET F(p, q) == ConvAt(D, A, K, p, q) IN Mk(Rows(A) + 2, Cols(A) + 2, F)
ConvSame(D, A, K)  == LET F(p, q) == ConvAt(D, A, K, p + 1, q + 1) IN Mk(Rows(A), Cols(A), F)
ConvValid(D, A, K) == LET F(p, q) == ConvAt(D, A, K, p + 2, q + 2) IN Mk(Rows(A) - 2, Cols(A) - 2, F)

(* ------------------------------ predicates ----------------------------- *)
(* no difference that is NaN is within anything *)
Within(D, A, B, eps) == \A i \in 1 .. Rows(A) : \A j \in 1 .. Cols(A) :
                          LET d == Sub(D, A[i][j], B[i][j]) IN d # NaN /\ AbsI(d) <= eps
IsIdentity(D, A, one) == A = Eye(D, Rows(A), one)     \* one: the domain's image of 1
IsSymmetric(A) == TLCEval(\A i \in 1 .. Rows(A) : \A j \in 1 .. Rows(A) : A[i][j] = A[j][i] /\ (i = j \/ A[i][j] # NaN))

(* ------------------------- histograms, statistics ---------------------- *)
Flat(A) == FlattenSeq(A)
Size(A) == Rows(A) * Cols(A)
Occurrences(f, v) == FoldLeft(LAMBDA acc, y : IF y = v THEN acc + 1 ELSE acc, 0, f)
NotGreater(f, v) == FoldLeft(LAMBDA acc, y : IF y <= v THEN acc + 1 ELSE acc, 0, f)
(* the same over a matrix, row by row *)
CountIn(A, P(_)) == FoldLeft(LAMBDA acc, row : acc + FoldLeft(LAMBDA c, y : IF P(y) THEN c + 1 ELSE c, 0, row), 0, A)
ValuesIn(A) == UNION { { A[i][j] : j \in 1 .. Cols(A) } : i \in 1 .. Rows(A) }
(* h is a sequence of <<key, count>> pairs in increasing key order *)
IsHist(A, h) ==
  /\ \A k \in 1 .. Len(h) : h[k][2] = CountIn(A, LAMBDA y : y = h[k][1])
  /\ \A k \in 1 .. Len(h) - 1 : h[k][1] < h[k + 1][1]
  /\ { h[k][1] : k \in 1 .. Len(h) } = ValuesIn(A)
IsCumHist(A, h) ==
  /\ \A k \in 1 .. Len(h) : h[k][2] = CountIn(A, LAMBDA y : y <= h[k][1])
  /\ \A k \in 1 .. Len(h) - 1 : h[k][1] < h[k + 1][1]
  /\ { h[k][1] : k \in 1 .. Len(h) } = ValuesIn(A)

SumAll(D, A) == FoldLeft(LAMBDA acc, row : FoldLeft(LAMBDA c, y : Red(D, c + y), acc, row), 0, A)
IsMean(D, A, v) == Elem(D, v) /\ IsQuot(D, SumAll(D, A), Red(D, Size(A)), v)
(* the k-th smallest element (1-based) *)
IsKth(A, k, v) == CountIn(A, LAMBDA y : y <= v) >= k /\ CountIn(A, LAMBDA y : y < v) < k
Kth(A, k) == CHOOSE v \in ValuesIn(A) : IsKth(A, k, v)
(* twice the median, so that halves stay integers *)
Median2(A) == LET n == Size(A)
              IN IF n % 2 = 1 THEN 2 * Kth(A, (n + 1) \div 2)
                 ELSE Kth(A, n \div 2) + Kth(A, n \div 2 + 1)
(* var * N^3 = sum (N x - S)^2 with S the sum: no division needed *)
VarN3(D, A) == LET S == SumAll(D, A)
                   N == Red(D, Size(A))
                   dev(y) == Sub(D, Mul(D, N, y), S)
               IN FoldLeft(LAMBDA acc, row : FoldLeft(LAMBDA c, y : Add(D, c, Mul(D, dev(y), dev(y))), acc, row), 0, A)
(* in the integers: N^2 var = N sum(x^2) - sum(x)^2 *)
VarN2(A) == LET f == Flat(A) S == SumAll(Ints, A)
            IN Size(A) * FoldLeft(LAMBDA acc, y : acc + y * y, 0, f) - S * S
IsVar(D, A, v) == LET N == Size(A) IN
  IF D.m = 0 THEN 0 <= v /\ v <= 1000000000 \div (N * N) /\ v * N * N = VarN2(A)
  ELSE LET M == Red(D, N) IN Elem(D, v) /\ Mul(D, v, Mul(D, M, Mul(D, M, M))) = VarN3(D, A)
IsStdDev(D, A, v) ==
  IF D.m = 0 THEN 0 <= v /\ v <= 40000 \div Size(A) /\ Size(A) * v * Size(A) * v = VarN2(A)
  ELSE Elem(D, v) /\ NonNeg(D, v) /\ IsVar(D, A, Mul(D, v, v))

(* -------------------------------- output ------------------------------- *)
(* tok[i][j]: the characters of element (i,j); space 32, newline 10 *)
PrintText(tok) ==
  FlattenSeq([i \in 1 .. Len(tok) |-> FlattenSeq([j \in 1 .. Len(tok[i]) |-> tok[i][j] \o <<32>>]) \o <<10>>])
=============================================================================
