--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Integers of any size.  TLC's own are 32 bit; deciding how far a rounded *)
(* floating-point result may lie from the exact one takes a few hundred.   *)
(*                                                                         *)
(* A number is a sequence of digits, least significant first, whose value  *)
(* is the sum of x[k] * Base^(k-1).  Digits may be negative and need not be *)
(* reduced, so addition and multiplication are those of polynomials; Norm  *)
(* propagates the carries and leaves digits 0 .. Base-1, and a last digit  *)
(* -1 for negative numbers.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANT Base

Digit(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
Larger(m, n) == IF m >= n THEN m ELSE n

BNeg(x) == [k \in 1 .. Len(x) |-> 0 - x[k]]
BAdd(x, y) == TLCEval([k \in 1 .. Larger(Len(x), Len(y)) |-> Digit(x, k) + Digit(y, k)])
BSub(x, y) == TLCEval([k \in 1 .. Larger(Len(x), Len(y)) |-> Digit(x, k) - Digit(y, k)])
BMul(x, y) ==
  IF x = <<>> \/ y = <<>> THEN <<>>
  ELSE TLCEval([k \in 1 .. Len(x) + Len(y) - 1 |->
         FoldLeftDomain(LAMBDA acc, i : IF i <= k /\ k - i < Len(y) THEN acc + x[i] * y[k - i + 1] ELSE acc, 0, x)])
BTimes(c, x) == TLCEval([k \in 1 .. Len(x) |-> c * x[k]])          \* c small

(* carries beyond the last digit *)
RECURSIVE Top(_)
Top(c) == IF c = 0 THEN <<>> ELSE IF c = 0 - 1 THEN <<0 - 1>> ELSE <<c % Base>> \o Top(c \div Base)
RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Norm(x) ==
  LET r == FoldLeft(LAMBDA a, d : LET t == a[1] + d IN <<t \div Base, Append(a[2], t % Base)>>, <<0, <<>>>>, x)
      top == Top(r[1])
  IN IF top = <<>> THEN Trim(r[2]) ELSE r[2] \o top

(* the sign, without building the digits *)
RECURSIVE SignTop(_)
SignTop(c) == IF c < 0 THEN TRUE ELSE FALSE
Negative(x) == SignTop(FoldLeft(LAMBDA c, d : (c + d) \div Base, 0, x))
BLeq(x, y) == ~Negative(BSub(y, x))
BEq(x, y) == Norm(BSub(x, y)) = <<>>
BAbs(x) == IF Negative(x) THEN Norm(BNeg(x)) ELSE Norm(x)
BZero(x) == Norm(x) = <<>>

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* x * Base^k *)
Shift(x, k) == [i \in 1 .. k |-> 0] \o x

RECURSIVE BPow(_, _)
BPow(x, k) == IF k = 0 THEN <<1>> ELSE Norm(BMul(x, BPow(x, k - 1)))

(* for the model of this module: into and out of TLC's integers *)
RECURSIVE Of(_)
Of(n) == IF n = 0 THEN <<>> ELSE <<(IF n < 0 THEN 0 - ((0 - n) % Base) ELSE n % Base)>> \o Of(IF n < 0 THEN 0 - ((0 - n) \div Base) ELSE n \div Base)
RECURSIVE Value(_)
Value(x) == IF x = <<>> THEN 0 ELSE x[1] + Base * Value(Tail(x))
=============================================================================
