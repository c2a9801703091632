------------------------------- MODULE BigLaws -------------------------------
(* Big computes what integers compute: all pairs of small numbers, in a      *)
(* small base, so that many digits and carries occur.                        *)
EXTENDS Big
CONSTANT N
VARIABLES x, y
Init == x \in (0 - N) .. N /\ y \in (0 - N) .. N
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
a == Of(x)
b == Of(y)
c == Norm(Of(x))
d == Norm(Of(y))
Canonical(z) == /\ \A k \in 1 .. Len(z) - 1 : 0 <= z[k] /\ z[k] < Base
                /\ z # <<>> => z[Len(z)] \in {0 - 1} \cup 1 .. Base - 1
Laws ==
  /\ Value(a) = x /\ Value(c) = x /\ Canonical(c)
  /\ Value(BAdd(a, d)) = x + y /\ Value(BSub(c, b)) = x - y
  /\ Value(BMul(a, b)) = x * y /\ Value(BMul(c, d)) = x * y /\ Value(Norm(BMul(a, d))) = x * y
  /\ Canonical(Norm(BMul(a, b)))
  /\ Negative(c) = (x < 0) /\ Negative(a) = (x < 0)
  /\ Negative(BSub(a, b)) = (x < y) /\ BLeq(a, d) = (x <= y) /\ BEq(c, b) = (x = y)
  /\ Value(BAbs(a)) = (IF x < 0 THEN 0 - x ELSE x)
  /\ Value(BTimes(3, c)) = 3 * x /\ Value(Shift(c, 2)) = Base * Base * x
  /\ BZero(c) = (x = 0)
  /\ x \in -5 .. 5 => Value(BPow(c, 3)) = x * x * x
=============================================================================
