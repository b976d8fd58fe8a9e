---- MODULE Coupled ----
(* The solution ray of a coupled system  Y'' = (V(x) - E) Y  with a symmetric n x n matrix V, on a chain of steps as in
   Ray.tla: channel i of a column has the scaled components u[i] and v[i] = u'[i]/om and their derivatives ue, ve with
   respect to g = E/om^2.  On a step
        du[i]/dt = a v[i],    dv[i]/dt = Sum_j q[i][j](t) u[j] - g w u[i],     a = w = h om  (constant).

   For a square matrix of columns, D(s) = det(v + i s u) turns around 0 while the columns move; its argument is the sum
   of the Pruefer angles of the channels (of the scaled system for s = 1, of the original one for s = 1/om). *)
EXTENDS Ray

Chans(y) == 1..Len(y.u)

CShifted(stp, g) ==
  [i \in 1..Len(stp.q) |-> [j \in 1..Len(stp.q) |->
     IF i = j THEN [stp.q[i][j] EXCEPT ![1] = Sub(@, Mul(g, stp.w))] ELSE stp.q[i][j]]]

CRow(Q, i, f, k) == FoldLeft(LAMBDA s, j: Conv(s, Q[i][j], f[j], k), Zero, Seg[Len(Q)])

CSeries(stp, Q, d, y) ==
  FoldLeft(LAMBDA f, k:
     [u |-> [i \in Chans(y) |-> Append(f.u[i], DivInt(Mul(stp.a, f.v[i][k+1]), k+1))],
      v |-> [i \in Chans(y) |-> Append(f.v[i], DivInt(CRow(Q, i, f.u, k), k+1))],
      ue |-> IF d THEN [i \in Chans(y) |-> Append(f.ue[i], DivInt(Mul(stp.a, f.ve[i][k+1]), k+1))] ELSE f.ue,
      ve |-> IF d THEN [i \in Chans(y) |-> Append(f.ve[i], DivInt(Sub(CRow(Q, i, f.ue, k), Mul(stp.w, f.u[i][k+1])), k+1))] ELSE f.ve],
     [u |-> [i \in Chans(y) |-> <<y.u[i]>>], v |-> [i \in Chans(y) |-> <<y.v[i]>>],
      ue |-> [i \in Chans(y) |-> <<y.ue[i]>>], ve |-> [i \in Chans(y) |-> <<y.ve[i]>>]],
     Orders)

CSize(y) == FoldLeft(LAMBDA m, i: Max2(m, MaxAbs(y.u[i], y.v[i])), Zero, Seg[Len(y.u)])
CScale(x, e) == [i \in 1..Len(x) |-> Shift10(x[i], -e)]
CRescaled(y) ==
  LET e == Expo(CSize(y)) IN
  IF e \in {0, -1} \/ IsZero(CSize(y)) THEN y
  ELSE [u |-> CScale(y.u, e), v |-> CScale(y.v, e), ue |-> CScale(y.ue, e), ve |-> CScale(y.ve, e), ex |-> y.ex + e]

CSums(f) == [i \in 1..Len(f) |-> SumSeq(f[i])]
CAdvance(stp, Q, d, y) ==
  LET f == CSeries(stp, Q, d, y)
  IN CRescaled([u |-> CSums(f.u), v |-> CSums(f.v), ue |-> IF d THEN CSums(f.ue) ELSE y.ue, ve |-> IF d THEN CSums(f.ve) ELSE y.ve, ex |-> y.ex])

----
(* complex numbers <<re, im>> and determinants of matrices given by columns *)
CMul(x, y) == <<Sub(Mul(x[1], y[1]), Mul(x[2], y[2])), Add(Mul(x[1], y[2]), Mul(x[2], y[1]))>>
CSub(x, y) == <<Sub(x[1], y[1]), Sub(x[2], y[2])>>
CAdd(x, y) == <<Add(x[1], y[1]), Add(x[2], y[2])>>
CNum(s, y, i) == <<y.v[i], Mul(s, y.u[i])>>
Det2(s, x, y, i, j) == CSub(CMul(CNum(s, x, i), CNum(s, y, j)), CMul(CNum(s, x, j), CNum(s, y, i)))
(* expansion along the first column; rows: the remaining rows *)
RECURSIVE DetRows(_, _, _)
DetRows(s, cols, rows) ==
  IF Len(cols) = 1 THEN CNum(s, cols[1], rows[1])
  ELSE IF Len(cols) = 2 THEN Det2(s, cols[1], cols[2], rows[1], rows[2])
  ELSE FoldLeft(LAMBDA d, i:
         LET t == CMul(CNum(s, cols[1], rows[i]), DetRows(s, Tail(cols), SubSeq(rows, 1, i - 1) \o SubSeq(rows, i + 1, Len(rows))))
         IN IF i % 2 = 1 THEN CAdd(d, t) ELSE CSub(d, t),
         <<Zero, Zero>>, Seg[Len(rows)])
Det(s, cols) == DetRows(s, cols, Seg[Len(cols)])
(* quadrant 0..3 of a complex number *)
Quadrant(z) == CASE ~IsNeg(z[1]) /\ ~IsNeg(z[2]) -> 0
                 [] IsNeg(z[1]) /\ ~IsNeg(z[2]) -> 1
                 [] IsNeg(z[1]) /\ IsNeg(z[2]) -> 2
                 [] OTHER -> 3
(* quarter turns between two quadrants that are at most neighbours; 2: not neighbours *)
Turn(p, q) == CASE (q - p) % 4 = 0 -> 0 [] (q - p) % 4 = 1 -> 1 [] (q - p) % 4 = 3 -> -1 [] OTHER -> 2
====
