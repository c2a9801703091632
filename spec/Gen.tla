--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Programs for the implementation, generated from the specification.      *)
(*                                                                         *)
(* Every behaviour of Gen is a behaviour of MatrixLib in which each call's *)
(* operands are whatever earlier calls left in the variables.  The last    *)
(* state of each behaviour prints the program together with what every     *)
(* call must return; lib/gens.py replays it against the real library.      *)
(*                                                                         *)
(* Used with TLC's simulator.  Choices are made with RandomElement inside  *)
(* a singleton, so that a state has one successor and a behaviour costs    *)
(* its length, not its length times the number of possible calls.          *)
(***************************************************************************)
EXTENDS MatrixLib, Json

CONSTANTS Moduli,      \* scalar domains to use (0: the integers)
          MaxDim,      \* largest number of rows or columns
          MaxHard,     \* the same for what is expensive to compute: inverse, powers, LU, determinant
          Length       \* calls per program

VARIABLES prog, n
gvars == <<vars, prog, n>>

Regs == 0 .. 6
Empty == <<>>
Live == {r \in Regs : reg[r] # Empty}
Pick(S) == {RandomElement(S)}            \* \E x \in Pick(S): a random choice, made once

Scalars == IF dom.m = 0 THEN -3 .. 3 ELSE 0 .. dom.m - 1
RandMat(R, C) == [i \in 1 .. R |-> [j \in 1 .. C |-> RandomElement(Scalars)]]
(* the largest magnitude in an integer matrix: products must stay in 32 bits *)
Top(A) == IF dom.m # 0 THEN 0 ELSE Max({AbsI(x) : x \in ToSet(Flat(A))})
Fits(A) == Rows(A) <= MaxDim /\ Cols(A) <= MaxDim /\ Top(A) <= 3000

Call(ev) == /\ prog' = Append(prog, ev)
            /\ n' = n + 1
Blank == [op |-> "", a |-> -1, b |-> -1, d |-> 0, d2 |-> 0, i |-> 0, j |-> 0, e |-> 0, s |-> 0, R |-> 0, C |-> 0,
          st |-> "ok", r |-> Empty, r2 |-> Empty, v |-> 0]

(* the logged expectation is read off the action's effect *)
Gives(ev)  == Fits(reg'[ev.d]) /\ Call([ev EXCEPT !.r = reg'[ev.d]])
Gives2(ev) == Fits(reg'[ev.d]) /\ Fits(reg'[ev.d2]) /\ Call([ev EXCEPT !.r = reg'[ev.d], !.r2 = reg'[ev.d2]])

LoadStep(d) == \E R \in Pick(1 .. MaxDim) : \E C \in Pick(1 .. MaxDim) :
               \E Q \in Pick({R, C}) : \E M \in {RandMat(R, Q)} :       \* half of them square
                 Store(d, M) /\ Call([Blank EXCEPT !.op = "load", !.d = d, !.r = M])

Ops == {"sum", "sub", "sums", "subs", "mults", "inc", "dec", "mult", "strassen", "det", "inv", "pow", "lu", "trans", "swapr", "swapc",
        "minor", "catv", "cath", "catpair", "eyes", "fill", "conv", "convf", "convv", "isid", "issym", "mean", "div", "abs"}

(* Doolittle elimination in a field: the one LU decomposition there is *)
RECURSIVE Eliminate(_, _, _)
Eliminate(L, U, k) ==
  IF k >= Rows(U) THEN <<L, U>>
  ELSE LET q == InvS(dom, U[k][k])
           f == TLCEval([i \in 1 .. Rows(U) |-> IF i > k THEN Mul(dom, U[i][k], q) ELSE 0])
           FU(i, j) == Red(dom, U[i][j] - Mul(dom, f[i], U[k][j]))
           FL(i, j) == IF j = k /\ i > k THEN f[i] ELSE L[i][j]
       IN Eliminate(Mk(Rows(U), Rows(U), FL), Mk(Rows(U), Rows(U), FU), k + 1)
LUOf(A) == Eliminate(Eye(dom, Rows(A), 1), A, 1)

CallOf(op, a, b, d, d2) ==
  LET A == reg[a]  B == reg[b]
      ev == [Blank EXCEPT !.op = op, !.a = a, !.b = b, !.d = d, !.d2 = d2]
      un == [ev EXCEPT !.b = -1]
      ct == [un EXCEPT !.a = -1]
  IN CASE op = "sum"  -> SumOp(a, b, d) /\ Gives(ev)
       [] op = "sub"  -> SubOp(a, b, d) /\ Gives(ev)
       [] op = "sums"  -> \E s \in Pick(Scalars) : SumScalar(a, s, d) /\ Gives([un EXCEPT !.s = s])
       [] op = "subs"  -> \E s \in Pick(Scalars) : SubScalar(a, s, d) /\ Gives([un EXCEPT !.s = s])
       [] op = "mults" -> \E s \in Pick(Scalars) : MulScalar(a, s, d) /\ Gives([un EXCEPT !.s = s])
       [] op = "inc"   -> IncOp(a, d) /\ Gives(un)
       [] op = "dec"   -> DecOp(a, d) /\ Gives(un)
       [] op = "abs"   -> AbsOp(a, d) /\ Gives(un)
       [] op = "mult"  -> MultOp(a, b, d) /\ Gives(ev)
       [] op = "strassen" -> StrassenOp(a, b, d) /\ Gives(ev)
       [] op = "det"   -> /\ Square(A) /\ Rows(A) <= MaxHard /\ (dom.m = 0 => Rows(A) <= 3 /\ Top(A) <= 200)
                          /\ LET v == Det(dom, A) IN DetOp(a, v) /\ Call([un EXCEPT !.v = v])
       [] op = "inv"   -> /\ Square(A) /\ Rows(A) <= MaxHard /\ dom.field
                          /\ IF Det(dom, A) = 0 THEN InvSingular(a) /\ Call([un EXCEPT !.st = "overflow_error"])
                             ELSE InvOp(a, d, MInv(dom, A)) /\ Gives(un)
       [] op = "pow"   -> /\ Square(A) /\ Rows(A) <= MaxHard /\ (dom.m = 0 => Top(A) <= 12)
                          /\ \E e \in Pick(IF dom.field THEN -6 .. 9 ELSE 0 .. 3) :
                               IF e >= 0 THEN PowOp(a, e, d) /\ Gives([un EXCEPT !.e = e])
                               ELSE IF Det(dom, A) = 0 THEN PowSingular(a, e) /\ Call([un EXCEPT !.e = e, !.st = "overflow_error"])
                               ELSE PowNeg(a, e, d, MPow(dom, MInv(dom, A), 0 - e)) /\ Gives([un EXCEPT !.e = e])
       [] op = "lu"    -> /\ Square(A) /\ Rows(A) <= MaxHard /\ dom.field /\ d # d2
                          /\ IF LUExists(dom, A) THEN LET LU == LUOf(A) IN LuOp(a, d, d2, LU[1], LU[2]) /\ Gives2(un)
                             ELSE LuZeroPivot(a) /\ Call([un EXCEPT !.st = "overflow_error"])
       [] op = "div"   -> /\ dom.field
                          /\ \E s \in Pick(Scalars) :
                               IF s = 0 THEN DivByZero(a, s) /\ Call([un EXCEPT !.st = "overflow_error"])
                               ELSE DivScalar(a, s, d, SMul(dom, A, InvS(dom, s))) /\ Gives([un EXCEPT !.s = s])
       [] op = "trans" -> TransOp(a, d) /\ Gives(un)
       [] op = "swapr" -> \E i \in Pick(0 .. Rows(A) - 1) : \E j \in Pick(0 .. Rows(A) - 1) : SwapRowsOp(a, i, j) /\ Call([un EXCEPT !.i = i, !.j = j, !.r = reg'[a]])
       [] op = "swapc" -> \E i \in Pick(0 .. Cols(A) - 1) : \E j \in Pick(0 .. Cols(A) - 1) : SwapColsOp(a, i, j) /\ Call([un EXCEPT !.i = i, !.j = j, !.r = reg'[a]])
       [] op = "minor" -> /\ Square(A) /\ Rows(A) > 1
                          /\ \E i \in Pick(0 .. Rows(A) - 1) : \E j \in Pick(0 .. Rows(A) - 1) : MinorOp(a, i, j, d) /\ Gives([un EXCEPT !.i = i, !.j = j])
       (* two equal rectangular shapes fit both overloads: not callable *)
       [] op = "catv"  -> (SameShape(A, B) => Square(A)) /\ CatVOp(a, b, d) /\ Gives(ev)
       [] op = "cath"  -> (SameShape(A, B) => Square(A)) /\ CatHOp(a, b, d) /\ Gives(ev)
       [] op = "catpair" -> d # d2 /\ CatPairOp(a, b, d, d2) /\ Gives2(ev)
       [] op = "eyes"  -> \E k \in Pick(1 .. MaxDim) : \E s \in Pick(Scalars) : EyeOp(k, s, d) /\ Gives([ct EXCEPT !.s = s, !.R = k, !.C = k])
       [] op = "fill"  -> \E R \in Pick(1 .. MaxDim) : \E C \in Pick(1 .. MaxDim) : \E s \in Pick(Scalars) : FillOp(R, C, s, d) /\ Gives([ct EXCEPT !.s = s, !.R = R, !.C = C])
       [] op = "conv"  -> ConvSameOp(a, b, d) /\ Gives(ev)
       [] op = "convf" -> ConvFullOp(a, b, d) /\ Gives(ev)
       [] op = "convv" -> ConvValidOp(a, b, d) /\ Gives(ev)
       [] op = "isid"  -> Square(A) /\ LET v == IF IsIdentity(dom, A, One(dom)) THEN 1 ELSE 0 IN IsIdentityOp(a, One(dom), v) /\ Call([un EXCEPT !.v = v])
       [] op = "issym" -> Square(A) /\ LET v == IF IsSymmetric(A) THEN 1 ELSE 0 IN IsSymmetricOp(a, v) /\ Call([un EXCEPT !.v = v])
       [] op = "mean"  -> /\ (dom.field /\ Red(dom, Size(A)) # 0)
                          /\ LET v == Mul(dom, SumAll(dom, A), InvS(dom, Red(dom, Size(A)))) IN MeanOp(a, v) /\ Call([un EXCEPT !.v = v])

(* some calls are asked for more often: they are possible less often *)
OpBag == SetToSeq(Ops) \o <<"mult", "mult", "strassen", "inv", "inv", "pow", "lu", "det", "catpair", "convf", "convv", "abs", "catv", "cath", "minor">>
(* partners of a in a product or a sum are rare among random shapes: prefer them *)
Partner(op, a) ==
  LET good == CASE op \in {"sum", "sub", "catpair"} -> {r \in Live : SameShape(reg[a], reg[r])}
                [] op = "mult" -> {r \in Live : Rows(reg[r]) = Cols(reg[a])}
                [] op = "catv" -> {r \in Live : Cols(reg[r]) = Cols(reg[a])}
                [] op = "cath" -> {r \in Live : Rows(reg[r]) = Rows(reg[a])}
                [] op \in {"conv", "convf", "convv"} -> {r \in Live : IsMat(reg[r], 3, 3)}
                [] op = "strassen" -> {r \in Live : IsMat(reg[r], 2, 2)}
                [] OTHER -> Live
  IN IF good = {} THEN Live ELSE good

Subject(op) ==
  LET good == CASE op \in {"det", "inv", "pow", "lu", "minor", "catpair", "isid", "issym"} -> {r \in Live : Square(reg[r])}
                [] op = "strassen" -> {r \in Live : IsMat(reg[r], 2, 2)}
                [] OTHER -> Live
  IN IF good = {} THEN Live ELSE good

GInit == /\ dom \in {IF m = 0 THEN Ints ELSE Residues(m) : m \in Moduli}
         /\ reg = [r \in Regs |-> Empty]
         /\ err = "ok" /\ prog = <<>> /\ n = 0

Emit == /\ n = Length
        /\ PrintT("BEHAVIOUR " \o ToJson([m |-> dom.m, prog |-> prog]))
        /\ n' = n + 1
        /\ UNCHANGED <<vars, prog>>

GNext ==
  \/ Emit
  \/ /\ n < Length
     /\ \E d \in Pick(Regs) :
          IF Cardinality(Live) < 3 THEN LoadStep(d)
          ELSE \E o \in Pick(1 .. Len(OpBag)) : \E a \in Pick(Subject(OpBag[o])) : \E b \in Pick(Partner(OpBag[o], a)) : \E d2 \in Pick(Regs) :
                 \/ CallOf(OpBag[o], a, b, d, d2)
                 \/ \E k \in Pick(0 .. 4) : k = 0 /\ LoadStep(d)
                 \/ UNCHANGED gvars                              \* a call this state does not allow: choose again

GSpec == GInit /\ [][GNext]_gvars
(* what the generated behaviours are made of stays inside the domain *)
GTypeOK == \A r \in Regs : reg[r] = Empty \/ IsMatOver(dom, reg[r], Rows(reg[r]), Cols(reg[r]))
=============================================================================
