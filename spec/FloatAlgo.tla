------------------------------ MODULE FloatAlgo ------------------------------
(***************************************************************************)
(* Why Float's error bounds are neither too tight nor too loose: a toy     *)
(* floating-point format with P bits, in which every operation rounds to   *)
(* nearest, ties to even, and the algorithms run on it for all inputs and  *)
(* all orders of summation.  Whatever they return has to be within the     *)
(* bound (so a rewritten loop is never an alarm), and the variants that    *)
(* lose digits have to leave it somewhere.                                 *)
(*                                                                         *)
(* Numbers are integers; Fine of them stand for 1, so that quotients keep  *)
(* their P bits.                                                           *)
(***************************************************************************)
EXTENDS Float, FiniteSets, TLC

CONSTANTS P, Fine, N, Vals, Signed, What, Wrong
VARIABLES u, v, pool, mean, pc, out
avars == <<u, v, pool, mean, pc, out>>

Abs(n) == IF n < 0 THEN 0 - n ELSE n
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
(* n/d to the nearest number with p bits; exact below the resolution *)
RoundTo(p, n, d) ==
  LET q == Abs(n) \div d
      b == Bits(q)
      g == IF b > p THEN Pow2(b - p) ELSE 1
      lo == (q \div g) * g                            \* lo <= |n|/d < lo+g
      t == 2 * (Abs(n) - lo * d) - g * d
      r == IF t < 0 \/ (t = 0 /\ (lo \div g) % 2 = 0) THEN lo ELSE lo + g
  IN IF n < 0 THEN 0 - r ELSE r
Low == IF Wrong = "lowprecision" THEN P \div 2 ELSE P
R(n) == RoundTo(P, n, 1)
RA(n) == RoundTo(Low, n, 1)                           \* accumulation
Sq(x) == R(x * x)

Inputs == {R(x * Fine) : x \in Vals} \cup {0 - R(x * Fine) : x \in IF Signed THEN Vals ELSE {}}
Init ==
  /\ reg = <<>> /\ one = <<1>> /\ up = Of(Pow2(P))
  /\ u \in [1 .. N -> Inputs]
  /\ v \in IF What = "dot" THEN [1 .. N -> Inputs] ELSE {u}
  /\ pool = IF What = "dot" THEN [k \in 1 .. N |-> R(u[k] * v[k])] ELSE u
  /\ mean = 0 /\ pc = "sum" /\ out = 0

Without(s, i, j) == [k \in 1 .. Len(s) - 2 |-> LET m == IF k < i THEN k ELSE IF k + 1 < j THEN k + 1 ELSE k + 2 IN s[m]]
AddTwo ==
  /\ Len(pool) > 1
  /\ \E i \in 1 .. Len(pool), j \in 1 .. Len(pool) :
       i < j /\ pool' = Append(Without(pool, i, j), RA(pool[i] + pool[j]))
  /\ UNCHANGED <<u, v, mean, pc, out>>
(* squares carry Fine twice; Wrong = "onepass": mean of squares minus square of the mean *)
Dev(k) == Sq(R(u[k] - mean'))
Finish ==
  /\ Len(pool) = 1
  /\ CASE What = "dot" -> out' = pool[1] /\ pc' = "done" /\ UNCHANGED <<pool, mean>>
       [] What = "mean" -> out' = RoundTo(P, pool[1], N) /\ pc' = "done" /\ UNCHANGED <<pool, mean>>
       [] What = "var" /\ pc = "sum" ->
            /\ mean' = RoundTo(P, pool[1], N) /\ pc' = "dev" /\ out' = out
            /\ pool' = [k \in 1 .. N |-> IF Wrong = "onepass" THEN Sq(u[k]) ELSE Dev(k)]
       [] What = "var" /\ pc = "dev" ->
            LET q == RoundTo(P, pool[1], N) IN
            /\ out' = IF Wrong = "onepass" THEN R(q - Sq(mean)) ELSE q
            /\ pc' = "done" /\ UNCHANGED <<pool, mean>>
  /\ UNCHANGED <<u, v>>
Next == pc # "done" /\ (AddTwo \/ Finish) /\ UNCHANGED fvars
Spec == Init /\ [][Next]_<<avars, fvars>>

Digits(s) == [k \in 1 .. N |-> Of(s[k])]
Accurate ==
  pc = "done" =>
    CASE What = "dot" -> NearProduct(<<Digits(u)>>, [k \in 1 .. N |-> <<Of(v[k])>>], <<<<Of(out)>>>>)
      [] What = "mean" -> NearMean(<<Digits(u)>>, Of(out))
      [] What = "var" -> NearVar(<<Digits(u)>>, Of(out))
=============================================================================
