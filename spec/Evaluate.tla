---- MODULE Evaluate ----
(* Evaluation of a piecewise function on an array by a cursor that stays in the piece of the previous point.
   Positions on a line with S pieces: 2i = end point i (i = 0..S), 2i-1 = inside piece i (i = 1..S); -1 and 2S+1 lie outside
   of the domain.  Piece i covers 2i-2..2i.  The design: a point outside yields zero and leaves the cursor; a point left
   (right) of the cursor's piece moves the cursor to a piece on that side; otherwise the cursor stays.
   Invariant: every produced value stems from a piece that covers the point, or is zero for a point outside.
   Mode "half": the positions -2S-1..2S+1 of a symmetric domain in nondecreasing order; negative positions are folded,
   evaluated in reversed order and put back; the result at p stems from a piece covering |p|.
   The arrays (all of length <= MaxLen over the positions) are emitted for the replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS S, MaxLen
VARIABLES mode, arr, i, cursor, out
vars == <<mode, arr, i, cursor, out>>
Inside(p) == 0 <= p /\ p <= 2*S
Covers(q, p) == 2*q - 2 <= p /\ p <= 2*q
Full == -1..2*S+1
Signed == (-2*S-1)..(2*S+1)
Sorted(a) == \A j \in 1..Len(a)-1 : a[j] <= a[j+1]
Neg(a) == Len(SelectSeq(a, LAMBDA t: t < 0))
Abs(t) == IF t < 0 THEN -t ELSE t
(* order of evaluation in half mode: folded negative positions from the middle outwards, then the positive ones *)
Order(m, a) == IF m = "full" THEN a
               ELSE [j \in 1..Len(a) |-> IF j <= Neg(a) THEN -a[Neg(a) + 1 - j] ELSE a[j]]
Target(m, a, j) == IF m = "full" \/ j > Neg(a) THEN j ELSE Neg(a) + 1 - j
Init == /\ \/ mode = "full" /\ arr \in UNION {[1..n -> Full] : n \in 0..MaxLen}
           \/ mode = "half" /\ arr \in {a \in UNION {[1..n -> Signed] : n \in 0..MaxLen - 1} : Sorted(a)}
        /\ i = 1 /\ cursor = 1
        /\ out = [j \in 1..Len(arr) |-> 0]
Point == Order(mode, arr)[i]
(* the evaluation of the positive part starts with a fresh cursor *)
At == IF mode = "half" /\ i = Neg(arr) + 1 THEN 1 ELSE cursor
Eval == /\ i <= Len(arr)
        /\ IF ~Inside(Point) THEN cursor' = At /\ out' = out
           ELSE /\ cursor' \in {q \in 1..S : /\ Covers(q, Point)
                                             /\ (Covers(At, Point) => q = At)
                                             /\ (Point < 2*At - 2 => q < At) /\ (Point > 2*At => q > At)}
                /\ out' = [out EXCEPT ![Target(mode, arr, i)] = cursor']
        /\ i' = i + 1
        /\ UNCHANGED <<mode, arr>>
Next == Eval
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Position(j) == IF mode = "full" THEN arr[j] ELSE Abs(arr[j])
Done == i > Len(arr)
Sound == Done => \A j \in 1..Len(arr) : IF Inside(Position(j)) THEN out[j] # 0 /\ Covers(out[j], Position(j)) ELSE out[j] = 0
NeverStuck == i <= Len(arr) => ENABLED Eval
Emit == i = 1 => PrintT(<<"TRACE", ToJson([m |-> mode, a |-> arr])>>)
====
