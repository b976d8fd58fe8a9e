---- MODULE LiouTrace ----
(* Conformance of recorded Liouville transformations.

   The change of variables of  -(p z')' + q z = E w z  on a chain of steps (step-local t in [0,1], r = r0 + h t):
        dx/dt = h sqrt(w/p) = h b S(t),   S(t)^2 = a(t) w(t),   b^2 p0 = w0
   where p0, w0 are the values of p and w at the start of the step in units of the step, a and w the Taylor coefficients of
   p(r0)/p and w/w(r0), and h the width of the step (h carries the unit of b, and x is in units of a power of ten).
   b comes as a witness with the case and is verified (WitnessOk).  The machine moves along the chain, one step per
   transition, and finally compares the accumulated x with the recorded difference of r2x between the ends of the chain. *)
EXTENDS Fix, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.RAY_CASES)
VARIABLES c, k, x, verdict
vars == <<c, k, x, verdict>>

NT == 24
Ord == [n \in 1..NT |-> n]
Nil == Int2Fix(0)
Coef(s, n) == IF n <= Len(s) THEN s[n] ELSE Nil
(* n-th coefficient (1-based) of the product *)
ProdCoef(a, b, n) == FoldLeft(LAMBDA s, j: MulAdd(s, Coef(a, j), Coef(b, n + 1 - j)), Nil, [j \in 1..n |-> j])
WitnessOk(st) == /\ Near(Mul(Mul(st.b, st.b), st.p0), st.w0, Ulp(100000))
                 /\ ~IsNeg(st.b) /\ ~IsNeg(st.h)
                 /\ st.a[1] = One /\ st.w[1] = One
(* coefficients of the square root of a w; constant term 1 *)
Root(st) == FoldLeft(LAMBDA s, n:
      IF n = 1 THEN <<One>>
      ELSE Append(s, DivInt(Sub(ProdCoef(st.a, st.w, n),
                             FoldLeft(LAMBDA t, j: MulAdd(t, s[j], s[n + 1 - j]), Nil, [j \in 1..n-2 |-> j + 1])),
                         2)),
    <<>>, Ord)
Width(st) == LET s == Root(st) IN Mul(st.h, Mul(st.b, FoldLeft(LAMBDA t, n: Add(t, DivInt(s[n], n)), Nil, Ord)))

(* the power series has converged on the step *)
Resolved(st) == LET s == Root(st) IN \A n \in NT-3..NT : Near(s[n], Nil, Ulp(10000))

Steps(cc) == IF "s" \in DOMAIN Cases[cc] THEN Cases[cc].s ELSE <<>>
Init == c \in 1..Len(Cases) /\ k = 1 /\ x = Zero /\ verdict = "running"

WitnessFailure(cc, kk) == IF WitnessOk(Steps(cc)[kk]) /\ Resolved(Steps(cc)[kk]) THEN <<>> ELSE << <<"witness", FALSE, kk>> >>

Reject(f) == PrintT(<<"REJECT", Cases[c].id, [i \in 1..Len(f) |-> <<f[i][1], f[i][3]>>]>>)

Step == /\ verdict = "running"
        /\ k <= Len(Steps(c))
        /\ LET xx == Add(x, Width(Steps(c)[k]))
               f == WitnessFailure(c, k)
           IN /\ x' = xx
              /\ verdict' = IF f = <<>> THEN verdict ELSE "rejected"
              /\ IF f = <<>> THEN TRUE ELSE Reject(f)
        /\ k' = k + 1
        /\ UNCHANGED c

(* pieces: ranks of the recorded end points (equal numbers have equal rank), rd, xd: ranks of the domains *)
JPieces(o) ==
  LET n == Len(o.r) IN
  << <<"tiling", n > 0 /\ o.r[1][1] = o.rd[1] /\ o.r[n][2] = o.rd[2] /\ \A i \in 1..n-1 : o.r[i][2] = o.r[i+1][1], o.r>>,
     <<"widths", \A i \in 1..n : o.r[i][1] < o.r[i][2], o.r>>,
     <<"image", n > 0 /\ o.x[1][1] = o.xd[1] /\ o.x[n][2] = o.xd[2] /\ o.x[1][1] = o.zero /\ \A i \in 1..n-1 : o.x[i][2] = o.x[i+1][1], o.x>>,
     <<"image widths", \A i \in 1..n : o.x[i][1] < o.x[i][2], o.x>> >>
(* recorded map values at increasing arguments: ranks increase with the arguments *)
JOrder(o) == << <<"increasing", \A i \in 1..Len(o.y) - 1 : o.y[i] < o.y[i+1], o.y>> >>
(* pairs that have to agree *)
JNear(o) == [i \in 1..Len(o.p) |-> <<o.p[i].n, Near(o.p[i].a, o.p[i].b, o.p[i].e), <<i, o.p[i].a, o.p[i].b>> >>]
(* transformed potential: Taylor coefficients p, w (to second order) and q at a point in scaled units:
   16 V w g^2 = 16 q g^2 - 3 p g'^2 + 4 p g'' g + 2 (p' w - p w') g' p   with g = p w *)
VSides(q) ==
  LET p0 == q.p[1]  p1 == q.p[2]  p2 == MulInt(q.p[3], 2)
      w0 == q.w[1]  w1 == q.w[2]  w2 == MulInt(q.w[3], 2)
      g == Mul(p0, w0)
      g1 == Add(Mul(p1, w0), Mul(p0, w1))
      g2 == Add(Add(Mul(p2, w0), MulInt(Mul(p1, w1), 2)), Mul(p0, w2))
      gg == Mul(g, g)
  IN << MulInt(Mul(Mul(q.V, w0), gg), 16),
        Add(Sub(MulInt(Mul(q.q, gg), 16), MulInt(Mul(p0, Mul(g1, g1)), 3)),
            Add(MulInt(Mul(p0, Mul(g2, g)), 4), MulInt(Mul(Mul(Sub(Mul(p1, w0), Mul(p0, w1)), g1), p0), 2))) >>
JPotential(o) == [i \in 1..Len(o.v) |-> LET s == VSides(o.v[i]) IN <<"potential", Near(s[1], s[2], o.v[i].e), <<i, s, o.v[i].e>> >>]
(* transformation of values: (1,0) -> (m, m1), (0,1) -> (0, e): m^4 = p w, e^2 w = m^2 p, 4 m1 p w = (p w)' e *)
JValues(o) ==
  [i \in 1..Len(o.z) |->
     LET q == o.z[i]
         g == Mul(q.p[1], q.w[1])
         g1 == Add(Mul(q.p[2], q.w[1]), Mul(q.p[1], q.w[2]))
         mm == Mul(q.m, q.m)
     IN <<"values", /\ Near(Mul(mm, mm), g, q.e1)
                    /\ Near(Mul(Mul(q.e, q.e), q.w[1]), Mul(mm, q.p[1]), q.e1)
                    /\ Near(MulInt(Mul(q.m1, g), 4), Mul(g1, q.e), q.e2)
                    /\ ~IsNeg(q.m) /\ ~IsNeg(q.e), <<i, q>> >>]
Judge(cc) == LET o == Cases[cc].o IN
  CASE Cases[cc].j = "pieces" -> JPieces(o)
    [] Cases[cc].j = "order" -> JOrder(o)
    [] Cases[cc].j = "near" -> JNear(o)
    [] Cases[cc].j = "potential" -> JPotential(o)
    [] Cases[cc].j = "values" -> JValues(o)
    [] Cases[cc].j = "map" -> << <<"map", Near(x, o.last, o.eps), <<x, o.last>> >> >>
Failures(j) == SelectSeq(j, LAMBDA t: ~t[2])
Decide == /\ verdict = "running"
          /\ k = Len(Steps(c)) + 1
          /\ LET f == Failures(Judge(c)) IN
             /\ verdict' = IF f = <<>> THEN "ok" ELSE "rejected"
             /\ IF f = <<>> THEN TRUE ELSE Reject(f)
          /\ UNCHANGED <<c, k, x>>
Next == Step \/ Decide
Spec == Init /\ [][Next]_vars
TypeOk == verdict \in {"running", "ok", "rejected"} /\ ~IsNeg(x)
====
