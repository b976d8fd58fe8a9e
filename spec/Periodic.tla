---- MODULE Periodic ----
(* Coupled boundary conditions (y(b), y'(b)) = K (y(a), y'(a)) with det K = 1 (periodic: K = I, antiperiodic: K = -I).
   D(E) = trace(K^-1 M(E)) with the monodromy matrix M; E is an eigenvalue iff D(E) = 2, a double one iff K^-1 M = I.
   The eigenvalues mu_0 < mu_1 < .. of the separated problem y(a) = 0, (y(b), y'(b)) || (k12, k22) separate the bands:
   at mu_n the vector (0, 1) is an eigenvector of K^-1 M, so |D(mu_n)| >= 2, with alternating signs.
   Hence the number of coupled eigenvalues below E (with multiplicity) follows from m = #{mu_n < E} and D(E). *)
EXTENDS Ray

(* K = << k11, k12, k21, k22 >> in the scaled variables *)
PType(K) == IsNeg(K[2]) \/ (IsZero(K[2]) /\ ~IsNeg(K[1]))

(* sign of D - 2; nn, dd: rays started in (1, 0) and (0, 1) *)
AboveTwo(nn, dd, K) ==
  LET ex == IF nn.ex > dd.ex THEN (IF nn.ex > 0 THEN nn.ex ELSE 0) ELSE (IF dd.ex > 0 THEN dd.ex ELSE 0)
      at(x, e) == Shift10(x, e - ex)
      t == Add(Sub(Mul(K[4], at(nn.u, nn.ex)), Mul(K[2], at(nn.v, nn.ex))),
               Sub(Mul(K[1], at(dd.v, dd.ex)), Mul(K[3], at(dd.u, dd.ex))))
  IN Less(Shift10(Int2Fix(2), -ex), t)

CoupledBelow(nn, dd, K) ==
  LET neg == IsNeg(K[2]) \/ (IsZero(K[2]) /\ IsNeg(K[4]))
      m == CountBelow(dd, IF neg THEN Neg(K[2]) ELSE K[2], IF neg THEN Neg(K[4]) ELSE K[4])
      up == AboveTwo(nn, dd, K)
      fl == 2 * (m \div 2) + 1
      ce == 2 * ((m + 1) \div 2)
  IN IF PType(K) THEN (IF up THEN ce ELSE fl) ELSE (IF up THEN fl ELSE ce)
====
