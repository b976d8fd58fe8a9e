---- MODULE Bands ----
(* Index queries on a coupled problem.  gaps[k] says whether the k-th pair of eigenvalues coincides ("double") or not;
   type P: eigenvalue 0 is single, pairs are (1,2), (3,4), ..; type A: pairs are (0,1), (2,3), ..
   The search walks over the pairs touched by lo..hi-1 and yields an entry <<index, multiplicity>> for each eigenvalue
   with an index in the request (a double one when either of its indices is requested).
   Invariants: entries are increasing, without overlap, touch the request, and at the end cover it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W
VARIABLES type, gaps, lo, hi, i, out, phase
vars == <<type, gaps, lo, hi, i, out, phase>>
NPairs == W \div 2 + 2
Init == /\ type \in {"P", "A"}
        /\ gaps \in [0..NPairs -> BOOLEAN]   \* TRUE: double
        /\ lo \in 0..W /\ hi \in lo..W
        /\ i = lo - (lo % 2) + (IF type = "A" THEN 1 ELSE 0)   \* upper index of the current pair (0: the single eigenvalue)
        /\ out = <<>> /\ phase = "walk"
Yields(ix, m) == ix < hi /\ ix + m > lo
Append1(q, ix, m) == IF Yields(ix, m) /\ lo < hi THEN Append(q, <<ix, m>>) ELSE q
Walk == /\ phase = "walk" /\ i <= hi + 1
        /\ out' = IF i = 0 THEN Append1(out, 0, 1)
                  ELSE IF gaps[(i - 1) \div 2] THEN Append1(out, i - 1, 2)
                  ELSE Append1(Append1(out, i - 1, 1), i, 1)
        /\ i' = i + 2
        /\ UNCHANGED <<type, gaps, lo, hi, phase>>
Done == /\ phase = "walk" /\ i > hi + 1 /\ phase' = "done" /\ UNCHANGED <<type, gaps, lo, hi, i, out>>
Next == Walk \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ordered == \A k \in 1..Len(out)-1 : out[k][1] + out[k][2] <= out[k+1][1]
Touching == \A k \in 1..Len(out) : Yields(out[k][1], out[k][2])
Covered == UNION {out[k][1]..out[k][1]+out[k][2]-1 : k \in 1..Len(out)}
Complete == phase = "done" => (lo..hi-1) \subseteq Covered
Contiguous == phase = "done" => \A k \in 1..Len(out)-1 : out[k][1] + out[k][2] = out[k+1][1]
Terminates == <>(phase = "done")
Emit == (phase = "done" /\ type = "P" /\ ~\E k \in 0..NPairs : gaps[k]) => PrintT(<<"TRACE", ToJson(<<lo, hi>>)>>)
====
