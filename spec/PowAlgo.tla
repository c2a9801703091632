------------------------------- MODULE PowAlgo -------------------------------
(***************************************************************************)
(* The library's pow: a stack of pending exponents, halved on the way      *)
(* down (C++ division truncates; a negative exponent first replaces the    *)
(* matrix by its inverse), squared and multiplied on the way up.           *)
(* Checked for every matrix over a small field and every exponent in a     *)
(* range, among them the smallest value of a Bits-bit exponent type: no    *)
(* intermediate exponent leaves the type.                                  *)
(*   Variant "library"; "absfirst" (|p| before halving: leaves the type,   *)
(*   refuted); "oddlost" (odd factor dropped for p < 0: refuted)           *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Mod, N, Bits, Variant
VARIABLES A0, A, p0, p, stack, res, pc
pvars == <<A0, A, p0, p, stack, res, pc>>
D == Residues(Mod)
Lo == 0 - 2^(Bits - 1)
Hi == 2^(Bits - 1) - 1

Init == /\ A0 \in [1 .. N -> [1 .. N -> 0 .. Mod - 1]]
        /\ p0 \in Lo .. Hi
        /\ A = A0 /\ p = p0 /\ stack = <<>> /\ res = <<>> /\ pc = "down"

Half(x) == TruncDiv(x, 2)
Down ==
  /\ pc = "down"
  /\ IF p = 0 THEN res' = Eye(D, N, 1) /\ pc' = "up" /\ UNCHANGED <<A, p, stack>>
     ELSE IF p = 1 THEN res' = A /\ pc' = "up" /\ UNCHANGED <<A, p, stack>>
     ELSE IF p < 0 /\ DetLaplace(D, A) = 0 THEN pc' = "threw" /\ UNCHANGED <<A, p, stack, res>>
     ELSE LET B == IF p < 0 THEN MInv(D, A) ELSE A
              half == IF Variant = "absfirst" THEN (IF p < 0 THEN 0 - p ELSE p) \div 2
                      ELSE IF p < 0 THEN 0 - Half(p) ELSE Half(p)
              odd == p % 2 # 0 /\ ~(Variant = "oddlost" /\ p < 0)
          IN /\ (Variant = "absfirst" /\ p < 0) => 0 - p <= Hi \/ pc' = "overflow"
             /\ A' = B /\ p' = half
             /\ stack' = Append(stack, [odd |-> odd, by |-> B])
             /\ pc' = (IF Variant = "absfirst" /\ p < 0 /\ 0 - p > Hi THEN "overflow" ELSE "down")
             /\ UNCHANGED res
  /\ UNCHANGED <<A0, p0>>
Up == /\ pc = "up" /\ stack # <<>>
      /\ LET t == stack[Len(stack)]
             s == MMul(D, res, res)
         IN res' = (IF t.odd THEN MMul(D, s, t.by) ELSE s)
      /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
      /\ UNCHANGED <<A0, A, p0, p, pc>>
Return == pc = "up" /\ stack = <<>> /\ pc' = "done" /\ UNCHANGED <<A0, A, p0, p, stack, res>>
Next == Down \/ Up \/ Return
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)

Correct == /\ pc = "done" /\ p0 >= 0 => res = MPowIter(D, A0, p0)
           /\ pc = "done" /\ p0 < 0 => res = MPowIter(D, MInv(D, A0), 0 - p0)
           /\ pc = "threw" => p0 < 0 /\ DetLaplace(D, A0) = 0
           /\ pc = "done" /\ p0 < 0 => DetLaplace(D, A0) # 0
InType == pc # "overflow" /\ Lo <= p /\ p <= Hi
Depth == Len(stack) <= Bits
Terminates == <>(pc \in {"done", "threw", "overflow"})
=============================================================================
