------------------------------ MODULE DetGauss -------------------------------
(***************************************************************************)
(* The library's determinant above 3x3, step by step: choose the first row *)
(* with a non-zero element in the pivot column, exchange, eliminate, move  *)
(* on; a column without such an element is skipped.  Checked for every     *)
(* matrix over a small field: what is left at the end is the determinant,  *)
(* and at every step determinant and collected sign account for it.        *)
(*                                                                         *)
(* Variant                                                                 *)
(*   "library"   division in the field                                     *)
(*   "anyrow"    any row with a non-zero element may be exchanged in (which *)
(*               covers every way of choosing pivots by magnitude)         *)
(*   "nosign"    the exchange does not flip the sign (must be refuted)     *)
(*   "noswap"    only the first candidate row is looked at (must be refuted) *)
(*   "trunc"     integers with truncating division (must be refuted)       *)
(*   "euclid"    integers or residues: rows are reduced against each other *)
(*               until the element is zero, no division of elements        *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Mod, N, Variant, Values
VARIABLES A0, A, r, pivot, sign, pc
gvars == <<A0, A, r, pivot, sign, pc>>

D == IF Mod = 0 THEN Ints ELSE Residues(Mod)
Carrier == IF Mod = 0 THEN Values ELSE 0 .. Mod - 1

Init == /\ A0 \in [1 .. 1 -> [1 .. N -> Carrier]]
        /\ A = A0 /\ r = 1 /\ pivot = 1 /\ sign = 1 /\ pc = "choose"

(* TLC's workers share the choice of the remaining rows *)
Choose == /\ pc = "choose"
          /\ \E T \in [1 .. N - 1 -> [1 .. N -> Carrier]] :
               A0' = A0 \o T /\ A' = A0 \o T
          /\ pc' = "column" /\ UNCHANGED <<r, pivot, sign>>

Diagonal == FoldLeft(LAMBDA acc, i : Mul(D, acc, A[i][i]), One(D), [i \in 1 .. N |-> i])
Value == IF sign = 1 THEN Diagonal ELSE Neg(D, Diagonal)

Candidates == {i \in r .. (IF Variant = "noswap" THEN r ELSE N) : A[i][pivot] # 0}
First == CHOOSE i \in Candidates : \A j \in Candidates : i <= j

Finish == /\ pc = "column" /\ (r > N \/ pivot > N)
          /\ pc' = "done" /\ UNCHANGED <<A0, A, r, pivot, sign>>
Skip == /\ pc = "column" /\ r <= N /\ pivot <= N /\ Candidates = {}
        /\ pivot' = pivot + 1 /\ UNCHANGED <<A0, A, r, sign, pc>>
Exchange == /\ pc = "column" /\ r <= N /\ pivot <= N /\ Candidates # {}
            /\ \E i \in IF Variant = "anyrow" THEN Candidates ELSE {First} :
                 /\ A' = SwapRows(A, r, i)
                 /\ sign' = IF i # r /\ Variant # "nosign" THEN 0 - sign ELSE sign
            /\ pc' = "eliminate" /\ UNCHANGED <<A0, r, pivot>>

Quotient(x, y) == IF D.field THEN Mul(D, x, InvS(D, y)) ELSE TruncDiv(x, y)
Eliminated == LET F(i, j) == IF i > pivot /\ i # r /\ j >= pivot
                             THEN Red(D, A[i][j] - Quotient(Mul(D, A[i][pivot], A[r][j]), A[r][pivot]))
                             ELSE A[i][j]
              IN Mk(N, N, F)
Eliminate == /\ pc = "eliminate" /\ Variant # "euclid"
             /\ A' = Eliminated
             /\ r' = r + 1 /\ pivot' = pivot + 1 /\ pc' = "column"
             /\ UNCHANGED <<A0, sign>>

(* Euclid: as long as some row below has an element in the pivot column, subtract  *)
(* a multiple of it from row r and exchange the two                                *)
Below == {i \in r + 1 .. N : A[i][pivot] # 0}
Euclid == /\ pc = "eliminate" /\ Variant = "euclid"
          /\ IF Below = {} THEN r' = r + 1 /\ pivot' = pivot + 1 /\ pc' = "column" /\ UNCHANGED <<A0, A, sign>>
             ELSE LET i == Min(Below)
                      q == A[r][pivot] \div A[i][pivot]
                      F(u, v) == IF u = r THEN Red(D, A[r][v] - q * A[i][v]) ELSE A[u][v]
                  IN A' = SwapRows(Mk(N, N, F), r, i) /\ sign' = 0 - sign /\ UNCHANGED <<A0, r, pivot, pc>>

Next == Choose \/ Finish \/ Skip \/ Exchange \/ Eliminate \/ Euclid
Spec == Init /\ [][Next]_gvars /\ WF_gvars(Next)

Correct == pc = "done" => Value = DetLaplace(D, A0)
(* the invariant that makes it correct: elimination keeps the determinant, every *)
(* exchange flips it and the sign                                                *)
Accounted == pc # "choose" => DetLaplace(D, A) = (IF sign = 1 THEN DetLaplace(D, A0) ELSE Neg(D, DetLaplace(D, A0)))
(* columns already passed are zero below the diagonal - until a column was skipped; *)
(* from then on (rows r .. pivot are not all eliminated) a zero stays on the        *)
(* diagonal, which is what the result of a singular matrix depends on               *)
Staircase == pc = "column" =>
  IF pivot = r THEN \A j \in 1 .. (IF r > N THEN N ELSE r - 1) : \A i \in 1 .. N : i > j => A[i][j] = 0
  ELSE \E i \in 1 .. N : A[i][i] = 0
Terminates == <>(pc = "done")
=============================================================================
