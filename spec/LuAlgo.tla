------------------------------- MODULE LuAlgo --------------------------------
(***************************************************************************)
(* The library's lu (Doolittle, column by column) over a small field, for  *)
(* every matrix: the factors satisfy IsLU exactly if LUExists, otherwise   *)
(* the zero pivot is met - and met before anything is divided by it.       *)
(*   Variant "library", "nocheck" (no zero-pivot check: refuted),          *)
(*   "lastfree" (last pivot not checked: refuted by ReportsZeroPivot)      *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Mod, N, Variant
VARIABLES A, L, U, j, pc
uvars == <<A, L, U, j, pc>>
D == Residues(Mod)

Init == /\ A \in [1 .. 1 -> [1 .. N -> 0 .. Mod - 1]]
        /\ L = Eye(D, N, 1) /\ U = Fill(D, N, N, 0) /\ j = 1 /\ pc = "choose"
Choose == /\ pc = "choose"
          /\ \E T \in [1 .. N - 1 -> [1 .. N -> 0 .. Mod - 1]] : A' = A \o T
          /\ pc' = "upper" /\ UNCHANGED <<L, U, j>>

RECURSIVE UpTo(_, _, _, _)
(* sum of U[q][j] * L[i][q] for q < i, with the U computed so far *)
UpTo(UU, LL, i, q) == IF q = 0 THEN 0 ELSE Add(D, UpTo(UU, LL, i, q - 1), Mul(D, UU[q][j], LL[i][q]))

RECURSIVE ColU(_, _)
ColU(UU, i) == IF i > j THEN UU
               ELSE ColU([UU EXCEPT ![i][j] = Sub(D, A[i][j], UpTo(UU, L, i, i - 1))], i + 1)
Upper == /\ pc = "upper" /\ j <= N
         /\ U' = ColU(U, 1)
         /\ pc' = "lower" /\ UNCHANGED <<A, L, j>>

(* the library sums q < i, although only q < j is non-zero: U[q][j] = 0 for q > j, and *)
(* q = j is met with L[i][j] still zero unless i = j, where q < i excludes it          *)
Lower == /\ pc = "lower"
         /\ IF U[j][j] = 0 /\ Variant # "nocheck" /\ ~(Variant = "lastfree" /\ j = N)
            THEN pc' = "threw" /\ UNCHANGED <<L, j>>
            ELSE /\ L' = [i \in 1 .. N |-> [L[i] EXCEPT ![j] = IF i < j THEN @ ELSE
                                 IF i = j /\ U[j][j] = 0 THEN @ ELSE
                                 Mul(D, Sub(D, A[i][j], UpTo(U, L, i, i - 1)), InvS(D, U[j][j]))]]
                 /\ j' = j + 1
                 /\ pc' = IF j = N THEN "done" ELSE "upper"
         /\ UNCHANGED <<A, U>>
Next == Choose \/ Upper \/ Lower
Spec == Init /\ [][Next]_uvars /\ WF_uvars(Next)

Correct == pc = "done" => IsLU(D, A, L, U)
ReportsZeroPivot == /\ pc = "done" => LUExists(D, A)
                    /\ pc = "threw" => ~LUExists(D, A)
(* after column j both factors agree with A on the first j columns *)
Prefix == pc = "upper" => \A c \in 1 .. j - 1 : \A i \in 1 .. N : MMul(D, L, U)[i][c] = A[i][c]
Terminates == <>(pc \in {"done", "threw"})
=============================================================================
