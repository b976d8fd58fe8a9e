---- MODULE CoupledTrace ----
(* Conformance of recorded executions of Matscs with the coupled ray machine of Coupled.tla.

   Probs: step chains; Cases: [id, j, p, i0, i1, g, d, cols, turn, o]: the columns start at chain point i0 and advance
   together to i1.  With turn (a sequence of scales s from 1/om to 1) the machine first turns D(s) from s = 1/om to 1,
   follows it along the chain and turns it back to 1/om, counting quarter turns.  At the end the recorded observation is
   judged. *)
EXTENDS Coupled, Json, IOUtils

Probs == ndJsonDeserialize(IOEnv.RAY_PROBS)
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)

VARIABLES c,      \* case
          ph,     \* "open" (scales up) | "walk" | "close" (scales down) | "judge" | "done"
          k,      \* position: in the scales or in the chain
          cols,   \* the columns
          q, n    \* quadrant of D and quarter turns so far
vars == <<c, ph, k, cols, q, n>>
C == Cases[c]
S == C.turn
First(cc) == [j \in 1..Len(Cases[cc].cols) |-> CRescaled([u |-> Cases[cc].cols[j].u, v |-> Cases[cc].cols[j].v, ue |-> Cases[cc].cols[j].ue, ve |-> Cases[cc].cols[j].ve, ex |-> 0])]

Init == /\ c \in 1..Len(Cases)
        /\ cols = First(c)
        /\ IF Len(Cases[c].turn) = 0 THEN /\ ph = "walk" /\ k = Cases[c].i0 /\ q = 0
                                     ELSE /\ ph = "open" /\ k = 1 /\ q = Quadrant(Det(Cases[c].turn[1], First(c)))
        /\ n = 0

Turned(z) == /\ q' = Quadrant(z)
             /\ Assert(Turn(q, Quadrant(z)) # 2, <<"angle lost", C.id>>)
             /\ n' = n + Turn(q, Quadrant(z))

Open == /\ ph = "open"
        /\ IF k < Len(S) THEN /\ Turned(Det(S[k+1], cols)) /\ k' = k + 1 /\ ph' = ph
           ELSE /\ UNCHANGED <<q, n>> /\ k' = C.i0 /\ ph' = "walk"
        /\ UNCHANGED <<c, cols>>

Walk == /\ ph = "walk"
        /\ IF k < C.i1 THEN
             /\ LET stp == Probs[C.p].s[k+1]
                    Q == CShifted(stp, C.g)
                IN cols' = [j \in 1..Len(cols) |-> CAdvance(stp, Q, C.d, cols[j])]
             /\ IF Len(S) = 0 THEN UNCHANGED <<q, n>> ELSE Turned(Det(S[Len(S)], cols'))
             /\ k' = k + 1 /\ ph' = ph
           ELSE /\ UNCHANGED <<cols, q, n>>
                /\ k' = Len(S) /\ ph' = IF Len(S) = 0 THEN "judge" ELSE "close"
        /\ UNCHANGED c

Close == /\ ph = "close"
         /\ IF k > 1 THEN /\ Turned(Det(S[k-1], cols)) /\ k' = k - 1 /\ ph' = ph
            ELSE /\ UNCHANGED <<q, n, k>> /\ ph' = "judge"
         /\ UNCHANGED <<c, cols>>

----
(* judges *)
Rel(x, ex, oex) == Shift10(x, ex - oex)
All(y) == 1..Len(y.u)

(* columns: o.y[j] = [u, v, ex, eps, ue, ve, exe, epse] *)
JCols(o) ==
  [j \in 1..Len(cols) |-> LET y == cols[j] b == o.y[j] IN
     <<"value", \A i \in All(y) : Near(Rel(y.u[i], y.ex, b.ex), b.u[i], b.eps) /\ Near(Rel(y.v[i], y.ex, b.ex), b.v[i], b.eps),
       <<j, y.ex, y.u, y.v, b.u, b.v, b.ex, b.eps>> >>]
  \o [j \in 1..Len(cols) |-> LET y == cols[j] b == o.y[j] IN
     <<"dE", C.d => \A i \in All(y) : Near(Rel(y.ue[i], y.ex, b.exe), b.ue[i], b.epse) /\ Near(Rel(y.ve[i], y.ex, b.exe), b.ve[i], b.epse),
       <<j, y.ex, y.ue, y.ve, b.ue, b.ve, b.exe, b.epse>> >>]

(* ratio: P (rows, times om and 10^-o.ex) maps v to u, within o.eps[j] for column j *)
JRatio(o) ==
  [j \in 1..Len(cols) |-> LET y == cols[j] IN
     <<"ratio", \A i \in All(y) : Near(FoldLeft(LAMBDA s, m: MulAdd(s, o.P[i][m], y.v[m]), Zero, Seg[Len(y.u)]), Shift10(y.u[i], -o.ex), o.eps[j]),
       <<j, y.u, y.v, o.P>> >>]

(* angle: the recorded total angle phi = arg D(start) + th/2 has o.qt quarter turns from the quadrant 0 and the direction
   o.cs = <<cos, sin>>; o.q0: quarter turn of the start *)
Cross(z, d) == Sub(Mul(z[1], d[2]), Mul(z[2], d[1]))
Size(z) == MaxAbs(z[1], z[2])
JAngle(o) ==
  LET z == Det(S[1], cols)
      e == Expo(Size(z))
      w == <<Shift10(z[1], -e), Shift10(z[2], -e)>>
      edge == Less(MaxAbs(Zero, Min2(Abs(o.cs[1]), Abs(o.cs[2]))), o.eps) \/ Less(Min2(Abs(w[1]), Abs(w[2])), o.eps)
      base == o.q0 + Turn(o.q0, Quadrant(Det(S[1], First(c))))
  IN << <<"direction", Leq(Abs(Cross(w, o.cs)), o.eps), <<w, o.cs>> >>,
        <<"turns", LET t == base + n IN IF edge THEN o.qt \in {t - 1, t, t + 1} ELSE o.qt = t, <<base, n, o.qt, w, o.cs>> >> >>

Judge == CASE C.j = "cols" -> JCols(C.o)
           [] C.j = "ratio" -> JRatio(C.o)
           [] C.j = "angle" -> JAngle(C.o)
Failures(j) == SelectSeq(j, LAMBDA t: ~t[2])

Decide == /\ ph = "judge"
          /\ LET f == Failures(Judge) IN
             IF f = <<>> THEN TRUE ELSE PrintT(<<"REJECT", C.id, [i \in 1..Len(f) |-> <<f[i][1], f[i][3]>>]>>)
          /\ ph' = "done"
          /\ UNCHANGED <<c, k, cols, q, n>>

Next == Open \/ Walk \/ Close \/ Decide
Spec == Init /\ [][Next]_vars
TypeOk == ph \in {"open", "walk", "close", "judge", "done"} /\ q \in 0..3
====
