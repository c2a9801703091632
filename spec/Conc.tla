-------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* Library calls in progress at the same time.                             *)
(*                                                                         *)
(* A call is a sequence of Points element operations on its operands and   *)
(* on working storage, followed by its return.  The scheduler (threads, or *)
(* element operations that themselves call the library) may switch to      *)
(* another call before any element operation.  With private working        *)
(* storage every call returns what it returns alone under every schedule;  *)
(* with storage shared between calls TLC finds schedules that break it     *)
(* (config Conc_shared), the shortest of them with a single switch.        *)
(*                                                                         *)
(* Config Conc_gen enumerates the schedules themselves; the conformance    *)
(* driver (harness/conc.cpp) executes them against the real library, with  *)
(* the positions scaled to the number of element operations each real call *)
(* performs.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Procs, Points, MaxSwitch, Shared, Emit

VARIABLES pc,        \* element operations each call has performed
          store,     \* working storage
          ret,       \* what each call has returned (-1: still running)
          plan       \* the schedule so far: <<call, operations>> segments
vars == <<pc, store, ret, plan>>

Loc(p) == IF Shared THEN 0 ELSE p
Operand(p) == 10 + p

Init == /\ pc = [p \in Procs |-> 0]
        /\ store = [q \in {0} \cup Procs |-> 0]
        /\ ret = [p \in Procs |-> -1]
        /\ plan = <<>>

(* the value of the working storage after operations from+1 .. to of p *)
RECURSIVE After(_, _, _, _)
After(p, from, to, v) ==
  IF from = to THEN v
  ELSE After(p, from + 1, to, IF from = 0 THEN Operand(p) ELSE v + Operand(p))

(* call p runs for k operations without interruption *)
Segment(p, k) ==
  /\ ret[p] = -1
  /\ pc[p] + k <= Points
  /\ pc' = [pc EXCEPT ![p] = @ + k]
  /\ LET v == After(p, pc[p], pc[p] + k, store[Loc(p)])
     IN /\ store' = [store EXCEPT ![Loc(p)] = v]
        /\ ret' = IF pc[p] + k = Points THEN [ret EXCEPT ![p] = v] ELSE ret
  /\ plan' = Append(plan, <<p, k>>)

Interruptions == Len(plan)
Next == \E p \in Procs :
          \/ /\ Len(plan) > 0 => plan[Len(plan)][1] # p
             /\ Len(plan) < MaxSwitch
             /\ \E k \in 1 .. Points - pc[p] : Segment(p, k)
          \/ /\ Len(plan) > 0 => plan[Len(plan)][1] # p
             /\ Len(plan) >= MaxSwitch            \* no more switches: run to the end
             /\ Segment(p, Points - pc[p])

Spec == Init /\ [][Next]_vars

AllDone == \A p \in Procs : ret[p] # -1
NonInterference == \A p \in Procs : ret[p] # -1 => ret[p] = Points * Operand(p)
EmitPlan == (Emit /\ AllDone) => PrintT(<<"PLAN", plan>>)
=============================================================================
