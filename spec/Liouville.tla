---- MODULE Liouville ----
(* Work list of the construction of the Liouville transformation (constructPiecewise in liouville.cpp).

   The r-domain is [0, 2^Depth]; an interval is <<lo, hi>>.  The last interval of the work list is taken; it is either
   accepted (its two halves become pieces) or replaced by its halves, the left one last.  Every piece gets the x-interval
   that starts where the previous piece ends; the x-width of a piece is its (abstract) measure.

   TileR, TileX: at any time the pieces and the reversed work list tile the domain without gaps and in order; the x-intervals
   of the pieces are contiguous.  Terminates: every behaviour ends with pieces that tile the whole domain. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT Depth
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Top == Pow2(Depth)
(* an increasing map with varying derivative *)
Measure(lo, hi) == hi * (hi + 1) - lo * (lo + 1)

VARIABLES todo, pieces, xmin
vars == <<todo, pieces, xmin>>
Init == todo = << <<0, Top>> >> /\ pieces = <<>> /\ xmin = 0

Next_ == todo[Len(todo)]
Mid(i) == (i[1] + i[2]) \div 2
Halves(i) == << <<i[1], Mid(i)>>, <<Mid(i), i[2]>> >>
Splittable(i) == i[2] - i[1] >= 4

Accept == /\ todo # <<>>
          /\ LET i == Next_
                 h == Halves(i)
                 x1 == xmin + Measure(h[1][1], h[1][2])
                 x2 == x1 + Measure(h[2][1], h[2][2])
             IN /\ pieces' = pieces \o << [r |-> h[1], x |-> <<xmin, x1>>], [r |-> h[2], x |-> <<x1, x2>>] >>
                /\ xmin' = x2
          /\ todo' = SubSeq(todo, 1, Len(todo) - 1)
Split == /\ todo # <<>>
         /\ Splittable(Next_)
         /\ todo' = SubSeq(todo, 1, Len(todo) - 1) \o << Halves(Next_)[2], Halves(Next_)[1] >>
         /\ UNCHANGED <<pieces, xmin>>
Done == todo = <<>> /\ UNCHANGED vars
Next == Accept \/ Split \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept)

AllR == [k \in 1..Len(pieces) |-> pieces[k].r] \o Reverse(todo)
TileR == /\ AllR[1][1] = 0 /\ AllR[Len(AllR)][2] = Top
         /\ \A k \in 1..Len(AllR) - 1 : AllR[k][2] = AllR[k+1][1]
         /\ \A k \in 1..Len(AllR) : AllR[k][1] < AllR[k][2]
TileX == /\ pieces # <<>> => pieces[1].x[1] = 0 /\ pieces[Len(pieces)].x[2] = xmin
         /\ \A k \in 1..Len(pieces) - 1 : pieces[k].x[2] = pieces[k+1].x[1]
         /\ \A k \in 1..Len(pieces) : pieces[k].x[2] - pieces[k].x[1] = Measure(pieces[k].r[1], pieces[k].r[2])
(* the piece that a lookup finds: the first one whose upper end exceeds the value, the last one otherwise *)
Find(v) == LET s == {k \in 1..Len(pieces) : pieces[k].r[2] > v} IN IF s = {} THEN Len(pieces) ELSE CHOOSE k \in s : \A j \in s : k <= j
Lookup == todo = <<>> => \A v \in 0..Top : pieces[Find(v)].r[1] <= v /\ v <= pieces[Find(v)].r[2]
Terminates == <>[](todo = <<>>)
====
