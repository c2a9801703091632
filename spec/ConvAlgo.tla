------------------------------ MODULE ConvAlgo -------------------------------
(***************************************************************************)
(* The library's three convolutions, for every small matrix and kernel     *)
(* over a small ring: the kernel turned by 180 degrees, nine guarded terms *)
(* per element (0-based indices; -1 is out of range), the full result with *)
(* an offset of one, the valid one cut out of the same one.                *)
(* Few: only kernels with at most two non-zero elements.                   *)
(*   Variant "library"; "norot" (kernel not turned), "clamp" (border       *)
(*   elements repeated instead of zeros), "wrap" (negative indices wrap    *)
(*   around), "shift" (full result without the offset): refuted            *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Mod, R, C, Variant, KMax, Few
VARIABLES A, K, same, full, valid, row, pc
cvars == <<A, K, same, full, valid, row, pc>>
D == Residues(Mod)

Init == /\ A \in [1 .. R -> [1 .. C -> 0 .. Mod - 1]]
        /\ K = <<>> /\ same = <<>> /\ full = <<>> /\ valid = <<>> /\ row = 0 /\ pc = "choose"
Choose == /\ pc = "choose"
          /\ \E k \in { x \in [1 .. 3 -> [1 .. 3 -> 0 .. KMax]] : Few => Cardinality({ t \in (1 .. 3) \X (1 .. 3) : x[t[1]][t[2]] # 0 }) <= 2 } :
               K' = IF Variant = "norot" THEN k ELSE [u \in 1 .. 3 |-> [v \in 1 .. 3 |-> k[4 - u][4 - v]]]
          /\ pc' = "same" /\ UNCHANGED <<A, same, full, valid, row>>

(* 0-based as in the code *)
Out(a, b) == a < 0 \/ b < 0 \/ a >= R \/ b >= C
Fix(x, n) == IF Variant = "clamp" THEN (IF x < 0 THEN 0 ELSE IF x >= n THEN n - 1 ELSE x) ELSE x
Wrap(x, n) == IF Variant = "wrap" /\ x < 0 THEN x + n ELSE x
Elt(a0, b0) == LET a == Wrap(Fix(a0, R), R)
                  b == Wrap(Fix(b0, C), C)
              IN IF Out(a, b) THEN 0 ELSE A[a + 1][b + 1]
(* the sum of the nine terms around (it, jt) *)
Around(it, jt) ==
  FoldLeft(LAMBDA acc, t : Add(D, acc, Mul(D, K[(t \div 3) + 1][(t % 3) + 1], Elt(it + (t \div 3) - 1, jt + (t % 3) - 1))),
           0, <<0, 1, 2, 3, 4, 5, 6, 7, 8>>)
Off == IF Variant = "shift" THEN 0 ELSE 1

Same == /\ pc = "same"
        /\ same' = Append(same, [b \in 1 .. C |-> Around(row, b - 1)])
        /\ IF row + 1 = R THEN row' = 0 /\ pc' = "full" ELSE row' = row + 1 /\ pc' = pc
        /\ UNCHANGED <<A, K, full, valid>>
Full == /\ pc = "full"
        /\ full' = Append(full, [b \in 1 .. C + 2 |-> Around(row - Off, b - 1 - Off)])
        /\ IF row + 1 = R + 2 THEN row' = 0 /\ pc' = "valid" ELSE row' = row + 1 /\ pc' = pc
        /\ UNCHANGED <<A, K, same, valid>>
Valid == /\ pc = "valid"
         /\ valid' = IF R < 3 \/ C < 3 THEN <<>> ELSE [a \in 1 .. R - 2 |-> [b \in 1 .. C - 2 |-> same[a + 1][b + 1]]]
         /\ pc' = "done"
         /\ UNCHANGED <<A, K, same, full, row>>
Next == Choose \/ Same \/ Full \/ Valid
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)

Kernel == IF Variant = "norot" THEN K ELSE [u \in 1 .. 3 |-> [v \in 1 .. 3 |-> K[4 - u][4 - v]]]
SameRight == pc = "done" => same = ConvSame(D, A, Kernel)
FullRight == pc = "done" => full = ConvFull(D, A, Kernel)
ValidRight == pc = "done" => (R < 3 \/ C < 3 \/ valid = ConvValid(D, A, Kernel))
Terminates == <>(pc = "done")
=============================================================================
