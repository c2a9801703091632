------------------------------- MODULE Approx --------------------------------
(***************************************************************************)
(* Rounded results.  Operands are integers, floating-point results x are   *)
(* logged as the integer nearest to sc*x, and an operation's defining      *)
(* equation must hold up to tol.  Used where binary floating point cannot  *)
(* represent the exact result; everything else is decided exactly.         *)
(***************************************************************************)
EXTENDS Mat

Near(x, y, tol) == AbsI(x - y) <= tol
NearMat(X, Y, tol) == SameShape(X, Y) /\ \A i \in 1 .. Rows(X) : \A j \in 1 .. Cols(X) : Near(X[i][j], Y[i][j], tol)

NearInverse(A, X, sc, tol) ==
  /\ IsMat(X, Rows(A), Rows(A))
  /\ NearMat(MMul(Ints, A, X), Eye(Ints, Rows(A), sc), tol)
  /\ NearMat(MMul(Ints, X, A), Eye(Ints, Rows(A), sc), tol)
NearQuot(A, s, X, sc, tol) ==
  /\ IsMat(X, Rows(A), Cols(A))
  /\ \A i \in 1 .. Rows(A) : \A j \in 1 .. Cols(A) : Near(X[i][j] * s, A[i][j] * sc, tol)
NearMean(A, v, sc, tol) == Near(Size(A) * v, sc * SumAll(Ints, A), tol)
NearVar(A, v, sc, tol) == Near(Size(A) * Size(A) * v, sc * VarN2(A), tol)
NearStdDev(A, v, sc, tol) ==
  LET w == Size(A) * v IN v >= 0 /\ v <= 40000 \div Size(A) /\ Near(w * w, sc * sc * VarN2(A), tol)
=============================================================================
