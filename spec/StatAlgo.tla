------------------------------ MODULE StatAlgo -------------------------------
(***************************************************************************)
(* Median, histogram and cumulative histogram as the library computes      *)
(* them, for every small matrix: the median by sorting - with exchanges of *)
(* out-of-order neighbours in any order, so with any sorting algorithm -   *)
(* and taking the middle; the histogram by counting element by element;    *)
(* the cumulative one by a running sum over the keys in increasing order.  *)
(*   Variant "library"; "upper" (the upper middle of an even number),      *)
(*   "early" (the middle taken before all is in order), "lost" (a new key  *)
(*   starts at 0), "unsorted" (keys in order of appearance): refuted       *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS R, C, Top, Variant
VARIABLES A, v, k, h, cum, pc, med2
svars == <<A, v, k, h, cum, pc, med2>>
N == R * C

Init == /\ A \in [1 .. R -> [1 .. C -> 0 .. Top]]
        /\ v = FlattenSeq(A) /\ k = 1 /\ h = <<>> /\ cum = <<>> /\ pc = "sort" /\ med2 = 0 - 1
Disorder == { i \in 1 .. N - 1 : v[i] > v[i + 1] }
Sort == /\ pc = "sort"
        /\ \E i \in Disorder : v' = [v EXCEPT ![i] = v[i + 1], ![i + 1] = v[i]]
        /\ UNCHANGED <<A, k, h, cum, pc, med2>>
(* 0-based: v[size/2] and v[size/2 - 1], or v[size/2] *)
Middle == /\ pc = "sort" /\ (Disorder = {} \/ Variant = "early")
          /\ med2' = IF N % 2 = 0 THEN (IF Variant = "upper" THEN 2 * v[N \div 2 + 1] ELSE v[N \div 2 + 1] + v[N \div 2])
                     ELSE 2 * v[N \div 2 + 1]
          /\ pc' = "count" /\ UNCHANGED <<A, v, k, h, cum>>
(* h: a sequence of <<key, count>> in increasing order of keys, as in std::map *)
Bump(H, x) == IF \E i \in 1 .. Len(H) : H[i][1] = x
              THEN [i \in 1 .. Len(H) |-> IF H[i][1] = x THEN <<x, H[i][2] + 1>> ELSE H[i]]
              ELSE LET new == <<x, IF Variant = "lost" THEN 0 ELSE 1>>
                   IN IF Variant = "unsorted" THEN Append(H, new)
                      ELSE SelectSeq(H, LAMBDA e : e[1] < x) \o <<new>> \o SelectSeq(H, LAMBDA e : e[1] > x)
Count == /\ pc = "count"
         /\ h' = Bump(h, FlattenSeq(A)[k])
         /\ IF k = N THEN k' = 1 /\ pc' = "cumulate" ELSE k' = k + 1 /\ pc' = pc
         /\ UNCHANGED <<A, v, cum, med2>>
Cumulate == /\ pc = "cumulate"
            /\ cum' = Append(cum, <<h[k][1], h[k][2] + (IF k = 1 THEN 0 ELSE cum[k - 1][2])>>)
            /\ k' = k + 1
            /\ pc' = IF k = Len(h) THEN "done" ELSE pc
            /\ UNCHANGED <<A, v, h, med2>>
Next == Sort \/ Middle \/ Count \/ Cumulate
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)

MedianRight == pc # "sort" => med2 = Median2(A)
HistRight == pc \in {"cumulate", "done"} => IsHist(A, h)
CumRight == pc = "done" => IsCumHist(A, cum) /\ cum[Len(cum)][2] = N
(* nothing is lost while sorting *)
Multiset == \A x \in 0 .. Top : Occurrences(v, x) = Occurrences(FlattenSeq(A), x)
Terminates == <>(pc = "done")
=============================================================================
