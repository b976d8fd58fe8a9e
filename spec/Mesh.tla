---- MODULE Mesh ----
(* Construction of the mesh (AutomaticSectorBuilder).  The domain is the ordered set of points 0..N; declared discontinuities
   are an arbitrary list (unsorted, repeated, at or beyond the ends).  Two fronts f and b advance towards each other: in every
   step one of them (nondeterministic: the builder compares potentials) gets a sector of any positive width
   (nondeterministic: the builder uses error estimates) that crosses neither the other front nor the next discontinuity.
   The sectors built by f are forward, those by b backward; construction ends when the fronts meet.

   Invariants: the sectors tile what lies behind the fronts in order, no sector has a discontinuity in its interior,
   the forward sectors come first; progress: every step shortens the gap, so construction terminates with a tiling. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS N, MaxJumps
VARIABLES declared, f, b, fs, bs
vars == <<declared, f, b, fs, bs>>

(* discontinuities that matter: strictly inside, in order, once *)
Splits == {j \in Range(declared) : 0 < j /\ j < N}
NextJump(x) == LET s == {j \in Splits : j > x} IN IF s = {} THEN N ELSE CHOOSE j \in s : \A i \in s : j <= i
PrevJump(x) == LET s == {j \in Splits : j < x} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A i \in s : j >= i
Less2(x, y) == IF x < y THEN x ELSE y
More2(x, y) == IF x > y THEN x ELSE y

Lists == UNION {[1..n -> -1..N + 1] : n \in 0..MaxJumps}
Init == declared \in Lists /\ f = 0 /\ b = N /\ fs = <<>> /\ bs = <<>>
(* the first two sectors leave room for each other *)
Forward == /\ f < b
           /\ \E e \in f + 1..Less2(b, NextJump(f)) :
                /\ (bs = <<>> => e < b)
                /\ fs' = Append(fs, <<f, e>>) /\ f' = e
           /\ UNCHANGED <<declared, b, bs>>
Backward == /\ f < b /\ fs # <<>>
            /\ \E e \in More2(f, PrevJump(b))..b - 1 :
                 /\ bs' = <<(<<e, b>>)>> \o bs /\ b' = e
            /\ UNCHANGED <<declared, f, fs>>
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sectors == fs \o bs
Contiguous(s) == \A i \in 1..Len(s) - 1 : s[i][2] = s[i + 1][1]
Tiling == /\ Contiguous(fs) /\ Contiguous(bs)
          /\ (fs # <<>> => fs[1][1] = 0 /\ fs[Len(fs)][2] = f)
          /\ (bs # <<>> => bs[Len(bs)][2] = N /\ bs[1][1] = b)
          /\ f <= b
Positive == \A s \in Range(Sectors) : s[1] < s[2]
NotCrossed == \A s \in Range(Sectors) : \A j \in Splits : ~(s[1] < j /\ j < s[2])
Complete == (f = b) => /\ Contiguous(Sectors) /\ fs # <<>> /\ bs # <<>>
                       /\ \A j \in Splits : \E i \in 1..Len(Sectors) - 1 : Sectors[i][2] = j
Terminates == <>(f = b)
Progress == [][b' - f' < b - f]_vars
Emit == (f = 0 /\ b = N) => PrintT(<<"TRACE", ToJson(declared)>>)
====
