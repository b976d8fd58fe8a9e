---- MODULE Legendre ----
(* Shifted Legendre projection of polynomials on [0, 1].
     P_i(t) = sum_j P_(i,j) t^j,   m_(k,i) = integral of t^k P_i(t) over [0, 1],
     t^k = sum_i (2i+1) m_(k,i) P_i(t).
   The machine projects f(t) = sum c_k t^k degree by degree: L are its coefficients, I its integral.
   Checked on its own: reproduction of every monomial, orthogonality, and that the projection
   of a polynomial is independent of the requested order. *)
EXTENDS Flo, TLC
CONSTANTS NMax

(* P_(i,j) = (-1)^(i+j) binom(i,j) binom(i+j,j) *)
RECURSIVE AbsP(_, _)
AbsP(i, j) == IF j = 0 THEN FOne ELSE FDivInt(FMulInt(AbsP(i, j - 1), (i - j + 1) * (i + j)), j * j)
Signed(x, n) == IF n % 2 = 0 THEN x ELSE FNeg(x)
P == [i \in 0..(NMax-1) |-> [j \in 0..i |-> Signed(AbsP(i, j), i + j)]]
RECURSIVE Moment(_, _)
Moment(n, i) == IF i = 0 THEN FDivInt(FOne, n + 1)
                ELSE IF i > n THEN FZero ELSE FDivInt(FMulInt(Moment(n, i - 1), n - i + 1), n + 1 + i)
M == [n \in 0..(NMax-1) |-> [i \in 0..(NMax-1) |-> Moment(n, i)]]
RECURSIVE FSum(_, _, _)
FSum(f, a, b) == IF a > b THEN FZero ELSE FAdd(f[a], FSum(f, a + 1, b))
RECURSIVE FPow(_, _)
FPow(t, n) == IF n = 0 THEN FOne ELSE FMul(t, FPow(t, n - 1))
RECURSIVE HornerF(_, _, _)
HornerF(c, t, j) == IF j + 1 = Len(c) THEN c[j+1] ELSE FAdd(c[j+1], FMul(t, HornerF(c, t, j + 1)))     \* c[1] + c[2] t + ...
PEval(i, t) == FSum([j \in 0..i |-> FMul(P[i][j], FPow(t, j))], 0, i)

VARIABLES f, n, k, L, I
lvars == <<f, n, k, L, I>>
Start(c, order) == /\ f = c /\ n = order /\ k = 0 /\ I = FZero /\ L = [i \in 0..(order-1) |-> FZero]
Project == /\ k < Len(f)
           /\ L' = [i \in 0..(n-1) |-> IF i > k THEN L[i] ELSE FAdd(L[i], FMul(FMulInt(M[k][i], 2*i + 1), f[k+1]))]
           /\ I' = FAdd(I, FDivInt(f[k+1], k + 1))
           /\ k' = k + 1 /\ UNCHANGED <<f, n>>

(* ---------------------------------------------------------------- the model *)
Unit(j) == [i \in 1..(j+1) |-> IF i = j + 1 THEN FOne ELSE FZero]
Init == \E order \in 1..NMax : \E j \in 0..(order-1) : Start(Unit(j), order)
Spec == Init /\ [][Project]_lvars
Tiny == FTen(-17)
At == {FDivInt(FInt(a), 8) : a \in {0, 1, 3, 7, 8}}
Reproduces == k = Len(f) => \A t \in At :
                 FNear(FSum([i \in 0..(n-1) |-> FMul(L[i], PEval(i, t))], 0, n - 1), HornerF(f, t, 0), Tiny)
Integrates == k = Len(f) => FNear(I, L[0], FTen(-28))
Orthogonal == n = NMax /\ k = 0 => \A i \in 0..(n-1) : \A j \in 0..i :
                 LET v == FSum([l \in 0..j |-> FMul(P[j][l], M[l][i])], 0, j)
                 IN FNear(FMulInt(v, 2 * i + 1), IF i = j THEN FOne ELSE FZero, Tiny)
====
