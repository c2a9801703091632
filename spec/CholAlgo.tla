------------------------------ MODULE CholAlgo -------------------------------
(***************************************************************************)
(* The library's chol (row by row) over a small field with q = 3 (mod 4),  *)
(* where exactly one of x, -x is a square.  For every lower triangular M   *)
(* with "positive" diagonal the factor of M*M^T is M again, so chol is     *)
(* determined on everything it accepts.                                    *)
(*   Variant "library"; "nosub" (diagonal without the sum: refuted)        *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Mod, N, Variant
VARIABLES M, L, i, pc
cvars == <<M, L, i, pc>>
D == Residues(Mod)
Pos == {x \in 1 .. Mod - 1 : Positive(D, x)}
Sqrt(x) == CHOOSE y \in 0 .. Mod - 1 : Mul(D, y, y) = x /\ NonNeg(D, y)
HasRoot(x) == \E y \in 0 .. Mod - 1 : Mul(D, y, y) = x

Lower == {T \in [1 .. N -> [1 .. N -> 0 .. Mod - 1]] :
            \A u, v \in 1 .. N : (u < v => T[u][v] = 0) /\ (u = v => T[u][v] \in Pos)}
A == MMul(D, M, Trans(M))
Init == M \in Lower /\ L = Fill(D, N, N, 0) /\ i = 1 /\ pc = "row"

RECURSIVE RowOf(_, _)
RowOf(LL, j) ==
  IF j > i THEN LL
  ELSE LET s == FoldLeft(LAMBDA acc, q : Add(D, acc, Mul(D, LL[i][q], LL[j][q])), 0, [q \in 1 .. i - 1 |-> q])
           x == Sub(D, A[i][j], IF Variant = "nosub" /\ j = i THEN 0 ELSE s)
       IN RowOf([LL EXCEPT ![i][j] = IF j = i THEN (IF HasRoot(x) THEN Sqrt(x) ELSE 0)
                                     ELSE Mul(D, x, InvS(D, LL[j][j]))], j + 1)
Row == /\ pc = "row"
       /\ L' = RowOf(L, 1)
       /\ i' = i + 1
       /\ pc' = IF i = N THEN "done" ELSE "row"
       /\ UNCHANGED M
Next == Row
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)

Correct == pc = "done" => IsChol(D, A, L)
Unique == pc = "done" => L = M
Prefix == \A u \in 1 .. i - 1 : L[u] = M[u]
=============================================================================
