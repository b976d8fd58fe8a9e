---- MODULE HalfMerge ----
(* A symmetric problem solved on half of its domain: the eigenvalues with even index belong to the Neumann condition in the
   origin, those with odd index to the Dirichlet condition.  order = the true order of the parities is E, O, E, O, ...
   An index request lo..hi-1 is split in an even and an odd request and merged again; the invariants say that the result is
   the request.  An energy request takes the members of both sequences between two cells and merges by index.
   The requests are emitted for the replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W
VARIABLES kind, lo, hi, even, odd, out
vars == <<kind, lo, hi, even, odd, out>>
Seq1(a, b) == [j \in 1..(IF b > a THEN b - a ELSE 0) |-> a + j - 1]
CeilHalf(x) == (x + 1) \div 2
FloorHalf(x) == x \div 2
(* cell of the energy of index n is n; an energy request is the open interval (lo - 1/2, hi - 1/2) *)
Init == /\ kind \in {"index", "energy"}
        /\ lo \in 0..W /\ hi \in lo..W
        /\ even = IF kind = "index" THEN Seq1(CeilHalf(lo), CeilHalf(hi))
                  ELSE SelectSeq(Seq1(0, W), LAMBDA k: lo <= 2*k /\ 2*k < hi)
        /\ odd = IF kind = "index" THEN Seq1(FloorHalf(lo), FloorHalf(hi))
                 ELSE SelectSeq(Seq1(0, W), LAMBDA k: lo <= 2*k+1 /\ 2*k+1 < hi)
        /\ out = <<>>
Done == even = <<>> /\ odd = <<>>
TakeEven == IF even = <<>> THEN FALSE ELSE IF odd = <<>> THEN TRUE ELSE Head(even) <= Head(odd)
TakeOdd == ~Done /\ ~TakeEven
Next == \/ TakeEven /\ out' = Append(out, 2 * Head(even)) /\ even' = Tail(even) /\ UNCHANGED <<kind, lo, hi, odd>>
        \/ TakeOdd /\ out' = Append(out, 2 * Head(odd) + 1) /\ odd' = Tail(odd) /\ UNCHANGED <<kind, lo, hi, even>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ordered == \A k \in 1..Len(out) - 1 : out[k] < out[k+1]
Request == Done => out = Seq1(lo, hi)
Terminates == <>Done
Emit == Done => PrintT(<<"TRACE", ToJson([k |-> kind, lo |-> lo, hi |-> hi])>>)
====
