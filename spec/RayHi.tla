---- MODULE RayHi ----
(* GENERATED by tools/genhi.py from Ray.tla: 32 decimals, 40 Taylor terms. *)
(* The solution ray of a (scaled) Sturm-Liouville system on a chain of steps.

   Physical problem:   z = p u',   z' = (q - E w) u.
   Step-local system on t in [0,1] (x = x0 + h t, v = z / om):
        du/dt = a(t) v              a(t) = h om / p
        dv/dt = (q(t) - g w(t)) u   q(t) = (h/om) q(x),  w(t) = h om w(x),  g = E / om^2
   and, for the derivatives with respect to g,
        due/dt = a ve,   dve/dt = (q - g w) ue - w u.
   A problem is a sequence of steps [a |-> coeffs, q |-> coeffs, w |-> coeffs]; every step is short
   enough (h sqrt(max(E w - q) / p) <= 1 < pi) to contain at most one zero of u.

   A ray is [u, v, ue, ve, ex, z, s]: the four components times 10^ex, z = number of zeros
   of u passed since the start (start point excluded, end point included) and s the sign of u just behind the
   current point. *)
EXTENDS FixHi, TLC

NTerms == 40
Orders == [k \in 1..NTerms |-> k-1]
Seg == [k \in 1..41 |-> [j \in 1..k |-> j]]
MinInt(a, b) == IF a < b THEN a ELSE b

(* sum_{j} c_j f_{k-j}, coefficient sequences are 1-based *)
Conv(z0, c, f, k) ==
  FoldLeft(LAMBDA s, j: MulAdd(s, c[j], f[k+2-j]), z0, Seg[MinInt(k+1, Len(c))])

(* q - g w *)
Shifted(stp, g) ==
  LET n == IF Len(stp.q) > Len(stp.w) THEN Len(stp.q) ELSE Len(stp.w)
  IN [j \in 1..n |->
        LET qq == IF j <= Len(stp.q) THEN stp.q[j] ELSE Zero
        IN IF j <= Len(stp.w) THEN Sub(qq, Mul(g, stp.w[j])) ELSE qq]

SeriesPlain(stp, Q, u, v) ==
  FoldLeft(LAMBDA f, k:
      << Append(f[1], DivInt(Conv(Zero, stp.a, f[2], k), k+1)),
         Append(f[2], DivInt(Conv(Zero, Q, f[1], k), k+1)) >>,
    << <<u>>, <<v>> >>, Orders)

SeriesE(stp, Q, W, u, v, ue, ve) ==
  FoldLeft(LAMBDA f, k:
      << Append(f[1], DivInt(Conv(Zero, stp.a, f[2], k), k+1)),
         Append(f[2], DivInt(Conv(Zero, Q, f[1], k), k+1)),
         Append(f[3], DivInt(Conv(Zero, stp.a, f[4], k), k+1)),
         Append(f[4], DivInt(Conv(Conv(Zero, Q, f[3], k), W, f[1], k), k+1)) >>,
    << <<u>>, <<v>>, <<ue>>, <<ve>> >>, Orders)

(* bring max(|u|,|v|) back to [0.01, 1) *)
Rescaled(r) ==
  LET e == Expo(MaxAbs(r.u, r.v)) IN
  IF e \in {0, -1} \/ IsZero(MaxAbs(r.u, r.v)) THEN r
  ELSE [r EXCEPT !.u = Shift10(r.u, -e), !.v = Shift10(r.v, -e),
                 !.ue = Shift10(r.ue, -e), !.ve = Shift10(r.ve, -e), !.ex = @ + e]

SgnDir(stp) == IF IsNeg(stp.a[1]) THEN -1 ELSE 1

(* sign of u just behind the start point of the ray in the direction of the first step *)
StartSign(u, v, dir) == IF Sgn(u) # 0 THEN Sgn(u) ELSE Sgn(v) * dir

StartRay(u, v, ue, ve, dir) ==
  Rescaled([u |-> u, v |-> v, ue |-> ue, ve |-> ve, ex |-> 0, z |-> 0, s |-> StartSign(u, v, dir)])

(* one Taylor step; d: with E-derivatives *)
Advance(stp, g, d, r) ==
  LET Q == Shifted(stp, g)
      f == IF d THEN SeriesE(stp, Q, [j \in 1..Len(stp.w) |-> Neg(stp.w[j])], r.u, r.v, r.ue, r.ve)
           ELSE SeriesPlain(stp, Q, r.u, r.v)
      u1 == SumSeq(f[1])
      v1 == SumSeq(f[2])
      ue1 == IF d THEN SumSeq(f[3]) ELSE Zero
      ve1 == IF d THEN SumSeq(f[4]) ELSE Zero
      s1 == Sgn(u1)
      crossed == s1 # r.s     \* u1 = 0 counts as a zero at the end point
  IN Rescaled([u |-> u1, v |-> v1, ue |-> ue1, ve |-> ve1, ex |-> r.ex,
               z |-> r.z + (IF crossed THEN 1 ELSE 0),
               s |-> IF s1 # 0 THEN s1 ELSE Sgn(v1) * SgnDir(stp)])

----
(* Sturm oscillation: number of eigenvalues below E for the right boundary direction (ru, rv),
   from the ray r that started on the left boundary condition; exact unless E is an eigenvalue. *)
CountBelow(r, ru, rv) ==
  LET bu == IF IsNeg(ru) \/ (IsZero(ru) /\ IsNeg(rv)) THEN Neg(ru) ELSE ru
      bv == IF IsNeg(ru) \/ (IsZero(ru) /\ IsNeg(rv)) THEN Neg(rv) ELSE rv
      su == IF IsNeg(r.u) THEN Neg(r.u) ELSE r.u
      sv == IF IsNeg(r.u) THEN Neg(r.v) ELSE r.v
  IN IF IsZero(bu) THEN r.z
     ELSE r.z + (IF Less(Mul(sv, bu), Mul(su, bv)) THEN 1 ELSE 0)
====
