---- MODULE LegendreTrace ----
(* Judges recorded projections: the projection machine is run on the polynomial of the case.
   o.f coefficients of f in t = (x-a)/(b-a); o.n order; o.len = b - a; o.at = points t; o.tol, o.move (relative
   uncertainty of the positions); o.c recorded coefficients times (b-a)^i, o.m those of the matrix valued
   projection (0 entries: not recorded), o.I recorded integral, o.p recorded polynomial in t (order <= 16),
   o.same, o.inside flags. *)
EXTENDS Legendre, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)
VARIABLES c, verdict
O(cc) == Cases[cc].o
TInit == c \in 1..Len(Cases) /\ verdict = "running" /\ Start(O(c).f, O(c).n)
Run == verdict = "running" /\ Project /\ UNCHANGED <<c, verdict>>

(* size of f and of its uncertainty through the positions *)
Size == FSum([i \in 1..Len(f) |-> FMul(FAbs(f[i]), FAdd(FInt(i), FMulInt(O(c).move, i)))], 1, Len(f))
Unc == FMul(O(c).tol, Size)
CoefBad == { i \in 0..(n-1) : ~FNear(O(c).c[i+1], L[i], FMulInt(Unc, 2*i + 1)) }
MatBad == { i \in 1..Len(O(c).m) : LET j == (i - 1) \div 4 IN ~FNear(O(c).m[i], L[j], FMulInt(Unc, 2*j + 1)) }
IntBad == ~FNear(O(c).I, FMul(I, O(c).len), FMul(Unc, O(c).len))
Amp(t) == FSum([i \in 0..(n-1) |-> FMulInt(FSum([j \in 0..i |-> FMul(FAbs(P[i][j]), FPow(t, j))], 0, i), 2*i + 1)], 0, n - 1)
PolyBad == IF Len(O(c).p) = 0 THEN {} ELSE
           { a \in 1..Len(O(c).at) : LET t == O(c).at[a] IN ~FNear(HornerF(O(c).p, t, 0), HornerF(f, t, 0), FMul(Unc, Amp(t))) }
(* the change of basis alone: from the recorded coefficients *)
BasisBad == IF Len(O(c).p) = 0 THEN {} ELSE
            { j \in 0..(n-1) :
                LET x == [i \in j..(n-1) |-> FMul(O(c).c[i+1], P[i][j])]
                IN ~FNear(O(c).p[j+1], FSum(x, j, n - 1), FMul(O(c).tol, FSum([i \in j..(n-1) |-> FAbs(x[i])], j, n - 1))) }
Bad == (IF CoefBad = {} THEN <<>> ELSE << <<"coefficients", CoefBad>> >>)
       \o (IF MatBad = {} THEN <<>> ELSE << <<"matrix coefficients", MatBad>> >>)
       \o (IF IntBad THEN << <<"integral", O(c).I, I>> >> ELSE <<>>)
       \o (IF PolyBad = {} THEN <<>> ELSE << <<"polynomial", PolyBad>> >>)
       \o (IF BasisBad = {} THEN <<>> ELSE << <<"change of basis", BasisBad>> >>)
       \o (IF O(c).same THEN <<>> ELSE << <<"repeated requests differ">> >>)
       \o (IF O(c).inside THEN <<>> ELSE << <<"sample outside">> >>)
Judge == /\ verdict = "running" /\ k = Len(f)
         /\ LET b == Bad IN /\ verdict' = (IF b = <<>> THEN "accepted" ELSE "rejected")
                            /\ IF b = <<>> THEN TRUE ELSE PrintT(<<"REJECT", Cases[c].id, b>>)
         /\ UNCHANGED <<lvars, c>>
TNext == Run \/ Judge
TSpec == TInit /\ [][TNext]_<<lvars, c, verdict>>
TypeOk == verdict \in {"running", "accepted", "rejected"}
====
