---- MODULE Walk ----
(* Propagation as a group action: a solution is a section over the points of the domain.  A walk is a sequence of
   moves between points; the state carried along is the pair (point, element of the group of transfer maps), an
   element of which is determined by its end points: g(a,b) g(b,c) = g(a,c), g(a,a) = 1.
   The group is modelled by the free assignment pot: Points -> Integers with g(a,b) = pot[b] - pot[a] ("potential
   difference"); every group action on a set of points has this form relative to a base point.
   Checked: the accumulated map of any walk depends on the end points only.  WalkGen dumps the walks for the replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NPoints, MaxLen
Points == 1..NPoints
VARIABLES at, start, acc, path
vars == <<at, start, acc, path>>
pot == [p \in Points |-> p * p * 7 - 3 * p]
Init == /\ at \in Points /\ start = at /\ acc = 0 /\ path = <<at>>
Move(q) == /\ Len(path) <= MaxLen
           /\ acc' = acc + (pot[q] - pot[at])
           /\ at' = q
           /\ path' = Append(path, q)
           /\ UNCHANGED start
Next == \E q \in Points : Move(q)
Spec == Init /\ [][Next]_vars
EndPointsOnly == acc = pot[at] - pot[start]
Returns == (at = start) => acc = 0
(* behaviours for the replay *)
Emit == (Len(path) = MaxLen + 1) => PrintT(<<"TRACE", ToJson(path)>>)
====
