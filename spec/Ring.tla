-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The scalar domains over which the library's matrices are specified.     *)
(*                                                                         *)
(* A domain D is a record [m |-> k, field |-> b]:                          *)
(*   m = 0   the integers                                                  *)
(*   m >= 2  the integers modulo m, represented by 0 .. m-1                *)
(*   m = -1  the integers extended by +inf, -inf and NaN, with the rules   *)
(*           of IEEE 754                                                   *)
(*   field   m is prime, so every non-zero element has an inverse          *)
(*                                                                         *)
(* TLC's integers are 32 bit.  With m <= 46337 no product of two           *)
(* representatives overflows; results of the implementation over wider     *)
(* types (64-bit integers, doubles, Gaussian integers) are bound to the    *)
(* specification through their images under ring homomorphisms into the    *)
(* residues modulo such primes.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Ints == [m |-> 0, field |-> FALSE]
ExtInts == [m |-> 0 - 1, field |-> FALSE]
PInf == 2000000001
NInf == 0 - PInf
NaN  == 2000000003
IsPrime(k) == k > 1 /\ \A d \in 2 .. 216 : d * d <= k => k % d # 0
Residues(k) == [m |-> k, field |-> IsPrime(k)]

(* Red brings an integer into the domain's canonical form *)
Red(D, x) == IF D.m <= 0 THEN x ELSE x % D.m

(* arithmetic of the extended integers *)
Inf(x)  == x = PInf \/ x = NInf
SignE(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
NegE(x) == IF x = NaN THEN NaN ELSE 0 - x
AddE(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE IF Inf(x) THEN (IF Inf(y) /\ y # x THEN NaN ELSE x)
              ELSE IF Inf(y) THEN y
              ELSE x + y
MulE(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE IF Inf(x) \/ Inf(y) THEN (IF x = 0 \/ y = 0 THEN NaN ELSE IF SignE(x) = SignE(y) THEN PInf ELSE NInf)
              ELSE x * y

Add(D, x, y) == IF D.m >= 0 THEN Red(D, x + y) ELSE AddE(x, y)
Sub(D, x, y) == IF D.m >= 0 THEN Red(D, x - y) ELSE AddE(x, NegE(y))
Mul(D, x, y) == IF D.m >= 0 THEN Red(D, x * y) ELSE MulE(x, y)
Neg(D, x)    == IF D.m >= 0 THEN Red(D, 0 - x) ELSE NegE(x)
One(D)  == Red(D, 1)

(* Integer results beyond 2^30 (the projection's marker for "not an integer, *)
(* not finite" among them) belong to no domain.                              *)
Elem(D, x) == IF D.m = 0 - 1 /\ (x = NaN \/ Inf(x)) THEN TRUE
              ELSE IF D.m <= 0 THEN -1073741824 <= x /\ x <= 1073741824 ELSE 0 <= x /\ x < D.m

RECURSIVE PowS(_, _, _)
PowS(D, x, k) ==      \* x^k for k >= 0
  IF k = 0 THEN One(D)
  ELSE LET h == PowS(D, x, k \div 2) IN
       IF k % 2 = 0 THEN Mul(D, h, h) ELSE Mul(D, Mul(D, h, h), x)

InvS(D, x) == PowS(D, x, D.m - 2)        \* fields only (Fermat)

AbsI(x) == IF x < 0 THEN 0 - x ELSE x      \* also of infinities and NaN
(* C++ integer division truncates toward zero; TLA+'s \div rounds down *)
TruncDiv(x, y) == LET q == AbsI(x) \div AbsI(y)
                  IN IF (x < 0) # (y < 0) THEN 0 - q ELSE q

(* z = x / y in the domain: true division in a field, truncation in Z *)
IsQuot(D, x, y, z) == IF D.field THEN Mul(D, z, y) = x
                      ELSE IF D.m = 0 - 1 THEN
                        IF x = NaN \/ y = NaN \/ (Inf(x) /\ Inf(y)) THEN z = NaN
                        ELSE IF Inf(x) THEN z = (IF SignE(x) = SignE(y) THEN PInf ELSE NInf)
                        ELSE IF Inf(y) THEN z = 0
                        ELSE ~Inf(z) /\ z # NaN /\ z * y = x
                      ELSE z = TruncDiv(x, y)
(* m * 2^-k is the quotient of x by y, correctly rounded to the length of m:  *)
(* m*y and x*2^k differ by at most y/2.  In a prime field, where a difference *)
(* of that size is told from any other.                                       *)
IsRoundedQuot(D, x, y, m, k) ==
  LET small == IF y > D.m \div 2 THEN D.m - y ELSE y
      d == Sub(D, Mul(D, m, y), Mul(D, x, PowS(D, 2, k)))
  IN 2 * d <= small \/ 2 * (D.m - d) <= small

(* the elements that play "non-negative" under the square root *)
NonNeg(D, x) == IF D.m <= 0 THEN x >= 0 ELSE x <= D.m \div 2
Positive(D, x) == NonNeg(D, x) /\ x # 0
=============================================================================
