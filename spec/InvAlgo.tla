------------------------------- MODULE InvAlgo -------------------------------
(***************************************************************************)
(* The library's inv above 3x3, for every matrix over a small field: the   *)
(* determinant, the cofactors row by row with getminor's two running       *)
(* counters, transposition, division by the determinant - which is where a *)
(* singular matrix is reported.                                            *)
(*   Variant "library"; "nosign" (cofactors without sign), "notrans" (not  *)
(*   transposed), "nocheck" (division not checked), "order" (the column    *)
(*   counter not reset in each row of the minor): all refuted              *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Mod, N, Variant
VARIABLES A, X, row, pc
ivars == <<A, X, row, pc>>
D == Residues(Mod)

Init == /\ A \in [1 .. 1 -> [1 .. N -> 0 .. Mod - 1]]
        /\ X = Fill(D, N, N, 0) /\ row = 1 /\ pc = "choose"
Choose == /\ pc = "choose"
          /\ \E T \in [1 .. N - 1 -> [1 .. N -> 0 .. Mod - 1]] : A' = A \o T
          /\ pc' = "cofactors" /\ UNCHANGED <<X, row>>

(* getminor: m is the minor so far, rc and cc its counters, (k, l) the element looked at *)
RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(p, q, m, rc, cc, k, l) ==
  IF k > N THEN m
  ELSE IF k = p THEN Scan(p, q, m, rc, cc, k + 1, 1)
  ELSE IF l > N THEN Scan(p, q, m, rc + 1, IF Variant = "order" THEN (cc % (N - 1)) + 1 ELSE 1, k + 1, 1)
  ELSE IF l = q THEN Scan(p, q, m, rc, cc, k, l + 1)
  ELSE Scan(p, q, [m EXCEPT ![rc][IF Variant = "order" THEN ((cc - 1) % (N - 1)) + 1 ELSE cc] = A[k][l]], rc, cc + 1, k, l + 1)
LibMinor(p, q) == Scan(p, q, Fill(D, N - 1, N - 1, 0), 1, 1, 1, 1)

Cofactor(p, q) == LET d == Det(D, LibMinor(p, q))
                  IN IF (p + q) % 2 = 1 /\ Variant # "nosign" THEN Neg(D, d) ELSE d
Cofactors == /\ pc = "cofactors"
             /\ X' = [X EXCEPT ![row] = [q \in 1 .. N |-> Cofactor(row, q)]]
             /\ row' = row + 1
             /\ pc' = IF row = N THEN "divide" ELSE "cofactors"
             /\ UNCHANGED A
Divide == /\ pc = "divide"
          /\ LET d == Det(D, A)
                 Y == IF Variant = "notrans" THEN X ELSE Trans(X)
             IN IF d = 0 /\ Variant # "nocheck" THEN pc' = "threw" /\ UNCHANGED X
                ELSE /\ X' = IF d = 0 THEN Y ELSE SMul(D, Y, InvS(D, d))
                     /\ pc' = "done"
          /\ UNCHANGED <<A, row>>
Next == Choose \/ Cofactors \/ Divide
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Next)

MinorsRight == pc = "cofactors" => \A q \in 1 .. N : LibMinor(row, q) = Minor(A, row, q)
Correct == pc = "done" => IsInverse(D, A, X)
ReportsSingular == pc \in {"done", "threw"} => ((pc = "threw") <=> (Det(D, A) = 0))
(* the cofactors of a row times that row sum to the determinant *)
Expansion == pc = "divide" => \A i \in 1 .. N : Dot(D, A[i], X[i]) = Det(D, A)
Terminates == <>(pc \in {"done", "threw"})
=============================================================================
