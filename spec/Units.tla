------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Programs of several translation units, each compiled by some compiler,  *)
(* for some language version, at some optimisation level, having included  *)
(* the umbrella header alone, after other headers, or twice, with or       *)
(* without assertions (NDEBUG).  What the                                  *)
(* headers define is either found in every unit (templates, inline, static *)
(* functions: any number of definitions is one) or once only (external).   *)
(*                                                                         *)
(* OneDefinition is what linking needs; it must be refuted for "external". *)
(* With Emit every program is printed: these are built from the code and   *)
(* run, and what they compute is validated as a behaviour of MatrixLib.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Compilers, Standards, Levels, Includes, Asserts, MaxUnits, Linkage, Emit
VARIABLES units, defs, phase
uvars == <<units, defs, phase>>

Unit == Compilers \X Standards \X Levels \X Includes \X Asserts
Rank(u) == 100000 * u[1] + 1000 * u[2] + 100 * u[3] + 10 * u[4] + u[5]

Init == units = <<>> /\ defs = 0 /\ phase = "compile"

(* every language version from C++11 on, with every compiler: no unit is refused *)
Compile == /\ phase = "compile" /\ Len(units) < MaxUnits
           /\ \E u \in Unit : /\ IF units = <<>> THEN TRUE ELSE Rank(units[Len(units)]) <= Rank(u)
                              /\ units' = Append(units, u)
           /\ defs' = defs + (IF Linkage = "external" THEN 1 ELSE 0)
           /\ UNCHANGED phase

Link == /\ phase = "compile" /\ units # <<>> /\ defs <= 1
        /\ phase' = "program"
        /\ (Emit /\ Len(units) = MaxUnits) => PrintT(<<"PROGRAM", units>>)
        /\ UNCHANGED <<units, defs>>

Next == Compile \/ Link
Spec == Init /\ [][Next]_uvars

(* a program is never stuck: whatever has been compiled can be linked *)
OneDefinition == phase = "compile" => defs <= 1
=============================================================================
