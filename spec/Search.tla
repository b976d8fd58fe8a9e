---- MODULE Search ----
(* Locating eigenvalues by index.  Energies are the cells 0..G; pos[i] is the cell in which eigenvalue number i - 1
   (i = 1..N) lies: nondecreasing, several eigenvalues may share a cell (coinciding within rounding).
   N(e) = number of eigenvalues in cells below e.  A query asks for the indices lo..hi-1.  The search keeps a bag of
   brackets [a, b); it may split a bracket at any interior cell, in any order; a bracket that holds exactly one
   eigenvalue may be refined: it yields the index N(a); an indivisible bracket yields all of its indices.
   Safety: never an index outside of the request, never one twice; at the end exactly the request.
   Variant: the termination measure decreases.  The windows of all terminal states are emitted for the replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS G, N, W
VARIABLES pos, lo, hi, todo, out, phase
vars == <<pos, lo, hi, todo, out, phase>>
Below(e) == Cardinality({i \in 1..N : pos[i] < e})
Positions == {p \in [1..N -> 0..G-1] : \A i \in 1..N-1 : p[i] <= p[i+1]}
Init == /\ pos \in Positions
        /\ lo \in 0..W /\ hi \in 0..W /\ lo <= hi /\ hi <= N
        /\ todo = {<<0, G>>}
        /\ out = <<>>
        /\ phase = "search"
Wanted(a, b) == {i \in Below(a)..Below(b)-1 : lo <= i /\ i < hi}
Drop(br) == /\ Wanted(br[1], br[2]) = {}
            /\ todo' = todo \ {br}
            /\ UNCHANGED out
Split(br) == /\ Wanted(br[1], br[2]) # {} /\ br[2] - br[1] > 1
             /\ \E c \in br[1]+1..br[2]-1 : todo' = (todo \ {br}) \cup {<<br[1], c>>, <<c, br[2]>>}
             /\ UNCHANGED out
Refine(br) == /\ Wanted(br[1], br[2]) # {} /\ Below(br[2]) = Below(br[1]) + 1
              /\ todo' = todo \ {br}
              /\ out' = Append(out, Below(br[1]))
Flush(br) == /\ Wanted(br[1], br[2]) # {} /\ br[2] - br[1] = 1
             /\ todo' = todo \ {br}
             /\ LET S == Wanted(br[1], br[2])
                    f == CHOOSE f \in [1..Cardinality(S) -> S] : \A i \in 1..Cardinality(S)-1 : f[i] < f[i+1]
                IN out' = out \o f
Work == /\ phase = "search"
        /\ \E br \in todo : Drop(br) \/ Split(br) \/ Refine(br) \/ Flush(br)
        /\ UNCHANGED <<pos, lo, hi, phase>>
Finish == /\ phase = "search" /\ todo = {}
          /\ phase' = "done"
          /\ UNCHANGED <<pos, lo, hi, todo, out>>
Next == Work \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Elements == {out[i] : i \in 1..Len(out)}
NoDuplicates == Cardinality(Elements) = Len(out)
OnlyRequested == \A i \in Elements : lo <= i /\ i < hi
Complete == phase = "done" => Elements = lo..hi-1
Terminates == <>(phase = "done")
(* windows for the replay *)
Emit == (phase = "done" /\ pos = [i \in 1..N |-> 0] /\ out = [k \in 1..hi-lo |-> lo + k - 1] ) => PrintT(<<"TRACE", ToJson(<<lo, hi>>)>>)
====
