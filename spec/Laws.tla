-------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* Is the specification itself right?  The definitions of Mat are checked  *)
(* against each other and against the laws of matrix algebra, for every    *)
(* tuple of matrices of the given shapes over the given domains.           *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Mods,        \* moduli of the domains
          n, k, p,     \* A is n x k, B and C are k x p
          Vars         \* how many of A, B, C range over all matrices (the rest are derived from A)

VARIABLES D, A, B, C, ready
lvars == <<D, A, B, C, ready>>

Dom(m) == IF m = 0 THEN Ints ELSE Residues(m)
Carrier(d) == IF d.m = 0 THEN -1 .. 1 ELSE 0 .. d.m - 1
All(d, R, Q) == [1 .. R -> [1 .. Q -> Carrier(d)]]

(* a fixed matrix of the right shape when the variable does not range over all *)
Some(d, R, Q, c) == LET F(i, j) == Red(d, i * i + c * j + i * j) IN Mk(R, Q, F)

(* The first rows are chosen first and the rest in one step, so that TLC's *)
(* workers share the tuples.                                               *)
Init == /\ D \in {Dom(m) : m \in Mods}
        /\ A \in {<<r>> : r \in [1 .. k -> Carrier(D)]}
        /\ B \in (IF Vars >= 2 THEN {<<r>> : r \in [1 .. p -> Carrier(D)]} ELSE {Some(D, k, p, 2)})
        /\ C \in (IF Vars >= 3 THEN {<<r>> : r \in [1 .. p -> Carrier(D)]} ELSE {Some(D, k, p, 3)})
        /\ ready = FALSE
Rest(M, R, Q) == IF Len(M) = R THEN {M} ELSE {M \o T : T \in All(D, R - Len(M), Q)}
Next == /\ ~ready
        /\ ready' = TRUE
        /\ A' \in Rest(A, n, k) /\ B' \in Rest(B, k, p) /\ C' \in Rest(C, k, p)
        /\ UNCHANGED D
Spec == Init /\ [][Next]_lvars

I(q) == Eye(D, q, 1)
(* ---- sums and products ---- *)
SumLaws == ready =>
  /\ MSum(D, B, C) = MSum(D, C, B)
  /\ MSub(D, MSum(D, B, C), C) = B
  /\ SSum(D, B, One(D)) = MSum(D, B, Fill(D, k, p, 1))
  /\ SMul(D, B, Red(D, 2)) = MSum(D, B, B)
  /\ SSub(D, B, One(D)) = SSum(D, B, Red(D, -1))
ProductLaws == ready =>
  /\ MMul(D, A, MSum(D, B, C)) = MSum(D, MMul(D, A, B), MMul(D, A, C))
  /\ Trans(MMul(D, A, B)) = MMul(D, Trans(B), Trans(A))
  /\ MMul(D, I(n), A) = A /\ MMul(D, A, I(k)) = A
  /\ Trans(Trans(A)) = A
  /\ MMul(D, A, SMul(D, B, Red(D, 2))) = SMul(D, MMul(D, A, B), Red(D, 2))
  (* blocks *)
  /\ MMul(D, A, CatH(B, C)) = CatH(MMul(D, A, B), MMul(D, A, C))
  /\ MMul(D, CatH(A, A), CatV(B, C)) = MMul(D, A, MSum(D, B, C))
  /\ Trans(CatV(B, C)) = CatH(Trans(B), Trans(C))
(* square only *)
Associative == ready => MMul(D, MMul(D, A, B), C) = MMul(D, A, MMul(D, B, C))

(* ---- the seven products of the library's strassen ---- *)
Strassen(X, Y) ==
  LET s(u, v) == Add(D, u, v)   t(u, v) == Sub(D, u, v)
      m1 == Mul(D, s(X[1][1], X[2][2]), s(Y[1][1], Y[2][2]))
      m2 == Mul(D, s(X[2][1], X[2][2]), Y[1][1])
      m3 == Mul(D, X[1][1], t(Y[1][2], Y[2][2]))
      m4 == Mul(D, X[2][2], t(Y[2][1], Y[1][1]))
      m5 == Mul(D, s(X[1][1], X[1][2]), Y[2][2])
      m6 == Mul(D, t(X[2][1], X[1][1]), s(Y[1][1], Y[1][2]))
      m7 == Mul(D, t(X[1][2], X[2][2]), s(Y[2][1], Y[2][2]))
  IN << <<s(t(s(m1, m4), m5), m7), s(m3, m5)>>, <<s(m2, m4), s(s(t(m1, m2), m3), m6)>> >>
StrassenIsProduct == ready => Strassen(A, B) = MMul(D, A, B)

(* ---- determinant ---- *)
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
Inversions(q) == Cardinality({<<i, j>> \in (1 .. Len(q)) \X (1 .. Len(q)) : i < j /\ q[i] > q[j]})
Leibniz(M) == LET term(q) == FoldLeftDomain(LAMBDA acc, i : Mul(D, acc, M[i][q[i]]), One(D), q)
                  signed(q) == IF Inversions(q) % 2 = 0 THEN term(q) ELSE Neg(D, term(q))
              IN FoldSet(LAMBDA q, acc : Add(D, acc, signed(q)), 0, Perms(1 .. Rows(M)))
DetIsPermutationSum == ready => DetLaplace(D, A) = Leibniz(A)
DetByElimination == ready /\ D.field => DetField(D, A) = DetLaplace(D, A)
DetDivisionFree == ready => DetBird(D, A) = DetLaplace(D, A)
DetLaws == ready => LET d == DetLaplace(D, A) IN
  /\ DetLaplace(D, Trans(A)) = d
  /\ \A i, j \in 1 .. n : i < j => /\ DetLaplace(D, SwapRows(A, i, j)) = Neg(D, d)
                                   /\ DetLaplace(D, SwapCols(A, i, j)) = Neg(D, d)
DetMultiplicative == ready => DetLaplace(D, MMul(D, A, B)) = Mul(D, DetLaplace(D, A), DetLaplace(D, B))

(* ---- inverse ---- *)
AdjugateLaw == ready => MMul(D, A, Adjugate(D, A)) = Eye(D, n, DetLaplace(D, A))
InverseLaw == ready /\ D.field => IF DetLaplace(D, A) # 0 THEN IsInverse(D, A, MInv(D, A))
                         ELSE \A X \in {B, C, Adjugate(D, A)} : ~IsInverse(D, A, X)
(* the inverse is unique, so IsInverse determines the result *)
InverseUnique == ready /\ IsInverse(D, A, B) /\ IsInverse(D, A, C) => B = C
NoneIfSingular == ready /\ D.field /\ DetLaplace(D, A) = 0 => ~IsInverse(D, A, B)

(* ---- powers ---- *)
PowerLaws == ready =>
  /\ \A e \in 0 .. 9 : MPow(D, A, e) = MPowIter(D, A, e)
  /\ \A e, f \in 0 .. 5 : MPow(D, A, e + f) = MMul(D, MPow(D, A, e), MPow(D, A, f))
PowerInverse == ready /\ D.field /\ DetLaplace(D, A) # 0 =>
                  \A e \in 1 .. 5 : IsInverse(D, MPow(D, A, e), MPow(D, MInv(D, A), e))

(* ---- decompositions: B and C are candidates for the factors ---- *)
LUUnique == ready /\ D.field /\ IsLU(D, A, B, C) /\ LUExists(D, A) =>
              \A i \in 1 .. n : LeadingMinor(D, A, i) = FoldLeft(LAMBDA acc, j : Mul(D, acc, C[j][j]), One(D), [q \in 1 .. i |-> q])

(* ---- data movement ---- *)
MoveLaws == ready =>
  /\ \A i, j \in 1 .. n : SwapRows(SwapRows(A, i, j), j, i) = A
  /\ \A i, j \in 1 .. k : SwapCols(A, i, j) = Trans(SwapRows(Trans(A), i, j))
  /\ \A i, j \in 1 .. n : n = k /\ n > 1 => Trans(Minor(A, i, j)) = Minor(Trans(A), j, i)

(* ---- convolution: A the matrix, B and C 3 x 3 kernels ---- *)
Block(M, r0, c0, R, Q) == LET F(i, j) == M[i + r0][j + c0] IN Mk(R, Q, F)
Flip(M) == LET F(i, j) == M[Rows(M) + 1 - i][Cols(M) + 1 - j] IN Mk(Rows(M), Cols(M), F)
ConvLaws == ready => LET Fu == ConvFull(D, A, B) IN
  /\ IsMat(Fu, n + 2, k + 2)
  /\ ConvSame(D, A, B) = Block(Fu, 1, 1, n, k)
  /\ n >= 3 /\ k >= 3 => ConvValid(D, A, B) = Block(Fu, 2, 2, n - 2, k - 2)
  /\ ConvFull(D, A, MSum(D, B, C)) = MSum(D, Fu, ConvFull(D, A, C))
  /\ ConvFull(D, Flip(A), Flip(B)) = Flip(Fu)
  /\ ConvFull(D, Trans(A), Trans(B)) = Trans(Fu)
  /\ SumAll(D, Fu) = Mul(D, SumAll(D, A), SumAll(D, B))
  /\ n = 3 /\ k = 3 => Fu = ConvFull(D, B, A)

(* ---- statistics ---- *)
StatLaws == ready => LET f == Flat(A) IN
  /\ \A q \in 1 .. Len(f) : Cardinality({v \in ToSet(f) : IsKth(A, q, v)}) = 1
  /\ \A q \in 1 .. Len(f) - 1 : Kth(A, q) <= Kth(A, q + 1)
  /\ Median2(Trans(A)) = Median2(A)
  /\ FoldSet(LAMBDA v, acc : acc + Occurrences(f, v), 0, ToSet(f)) = Size(A)
  /\ D.m = 0 => VarN2(A) >= 0 /\ (VarN2(A) = 0) = (Cardinality(ToSet(f)) = 1)
  /\ D.m = 0 => VarN3(D, A) = Size(A) * VarN2(A)
  /\ D.m = 0 => VarN2(SSum(D, A, 5)) = VarN2(A)
(* exactly one map is the histogram *)
HistOf(M, c(_, _)) == LET f == Flat(M)
                          ks == SetToSortSeq(ToSet(f), <)
                      IN [q \in 1 .. Len(ks) |-> <<ks[q], c(f, ks[q])>>]
HistLaws == ready => LET h == HistOf(A, Occurrences)
                g == HistOf(A, NotGreater)
            IN /\ IsHist(A, h) /\ IsCumHist(A, g)
               /\ g[Len(g)][2] = Size(A)
               /\ \A q \in 2 .. Len(h) : g[q][2] = g[q - 1][2] + h[q][2]
               /\ Len(h) > 1 => ~IsHist(A, Tail(h)) /\ ~IsCumHist(A, h)
               /\ ~IsHist(A, [h EXCEPT ![1] = <<h[1][1], h[1][2] + 1>>])

(* deliberately wrong: TLC must refute these (the laws above are not vacuous) *)
WrongCommutes == ready => MMul(D, A, B) = MMul(D, B, A)
WrongDetSum == ready => DetLaplace(D, MSum(D, A, B)) = Add(D, DetLaplace(D, A), DetLaplace(D, B))
=============================================================================
