---- MODULE RayHiTrace ----
(* Conformance of executions recorded in extended precisions with the 32-decimal ray machine (RayHi.tla).
   Same states and transitions as RayTrace.tla. Judges:
     eig:  o = [n, ru, rv]; runs at E - d and E + d: the eigenvalue with index n lies between them
     prop: o = [y, ex, eps]: recorded value of a propagated solution, in units of 10^ex
     eigf: recorded eigenfunction: see RayTrace.tla *)
EXTENDS RayHi, Json, IOUtils, FiniteSets

Probs == ndJsonDeserialize(IOEnv.RAY_PROBS)
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)

VARIABLES c, r, k, ray, res, verdict
vars == <<c, r, k, ray, res, verdict>>

RunOf(cc, i) == Cases[cc].runs[i]
NoRay == [u |-> Zero, v |-> Zero, ue |-> Zero, ve |-> Zero, ex |-> 0, z |-> 0, s |-> 0]
Start(cc, i) ==
  IF i > Len(Cases[cc].runs) THEN NoRay
  ELSE LET q == RunOf(cc, i)
       IN StartRay(q.u, q.v, IF "ue" \in DOMAIN q THEN q.ue ELSE Zero, IF "ue" \in DOMAIN q THEN q.ve ELSE Zero, IF q.i0 < q.i1 THEN SgnDir(Probs[q.p].s[q.i0 + 1]) ELSE 1)

Init == /\ c \in 1..Len(Cases)
        /\ r = 1
        /\ k = IF Len(Cases[c].runs) = 0 THEN 0 ELSE RunOf(c, 1).i0
        /\ ray = Start(c, 1)
        /\ res = <<>>
        /\ verdict = "running"

Step == /\ verdict = "running"
        /\ r <= Len(Cases[c].runs)
        /\ k < RunOf(c, r).i1
        /\ ray' = LET q == RunOf(c, r) IN Advance(Probs[q.p].s[k+1], q.g, q.d, ray)
        /\ k' = k + 1
        /\ UNCHANGED <<c, r, res, verdict>>

EndRun == /\ verdict = "running"
          /\ r <= Len(Cases[c].runs)
          /\ k = RunOf(c, r).i1
          /\ res' = Append(res, ray)
          /\ r' = r + 1
          /\ k' = IF r = Len(Cases[c].runs) THEN 0 ELSE RunOf(c, r+1).i0
          /\ ray' = Start(c, r+1)
          /\ UNCHANGED <<c, verdict>>

JEig(o) ==
  LET lo == CountBelow(res[1], o.ru, o.rv)
      hi == CountBelow(res[2], o.ru, o.rv)
  IN << <<"index", lo <= o.n /\ hi >= o.n + 1, <<lo, hi>> >> >>

(* runs i: a recorded propagation each *)
JProp(o) ==
  [i \in 1..Len(o.y) |->
     <<"value", /\ Near(Shift10(res[i].u, res[i].ex - o.ex[i]), o.y[i][1], o.eps[i])
                /\ Near(Shift10(res[i].v, res[i].ex - o.ex[i]), o.y[i][2], o.eps[i]), <<i, res[i].u, res[i].v, res[i].ex, o.y[i], o.ex[i], o.eps[i]>> >>]

Rel(x, ex, oex) == Shift10(x, ex - oex)
Wronskian(x, y) == Sub(Mul(x[1], y[2]), Mul(x[2], y[1]))

(* Eigenfunction, recorded at increasing sample points with at most one zero between neighbours.  Run i leads from
   sample i to sample i+1 and starts in the recorded state of sample i, scaled by 10^-o.ex[i] (d = TRUE);
   o.b[i] is the recorded state of sample i+1 in the scale of run i.
   - every sample continues the solution through the previous one within o.eps[i]; at most o.maxbad segments (those with
     the matching point, where the rounded eigenvalue leaves a jump) may deviate up to o.jump[i];
   - both boundary conditions (o.l, o.r: directions; <<0,0>>: none) in the states o.first, o.last;
   - o.n sign changes in the sequence o.sg of signs (o.n = -1: not checked);
   - the norm: om * Int w y^2 = Sum (ue v - ve u) *)
SegOk(o, i, eps) == Near(Rel(res[i].u, res[i].ex, 0), o.b[i][1], eps) /\ Near(Rel(res[i].v, res[i].ex, 0), o.b[i][2], eps)
SegNorm(o, i) == Shift10(Sub(Mul(res[i].ue, res[i].v), Mul(res[i].ve, res[i].u)), 2*(res[i].ex + o.ex[i]))
NormSum(o) == FoldLeft(LAMBDA x, y: Add(x, y), Zero, [i \in 1..Len(res) |-> SegNorm(o, i)])
SignSeq(o) == SelectSeq(o.sg, LAMBDA t: t # 0)
Changes(x) == Cardinality({i \in 1..Len(x) - 1 : x[i] # x[i+1]})
OnBc(y, d, eps) == (IsZero(d[1]) /\ IsZero(d[2])) \/ Leq(Abs(Wronskian(y, d)), eps)
JEigf(o) ==
  LET bad == {i \in 1..Len(res) : ~SegOk(o, i, o.eps[i])}
  IN << <<"equation", Cardinality(bad) <= o.maxbad /\ \A i \in bad : SegOk(o, i, o.jump[i]),
          {<<i, res[i].u, res[i].v, res[i].ex, o.b[i], o.eps[i], o.jump[i]>> : i \in bad} >>,
        <<"left", OnBc(o.first, o.l, o.lbceps), <<o.first, o.l>> >>,
        <<"right", OnBc(o.last, o.r, o.rbceps), <<o.last, o.r>> >>,
        <<"zeros", o.n < 0 \/ Changes(SignSeq(o)) = o.n, Changes(SignSeq(o))>>,
        <<"norm", ~o.hasnorm \/ Near(NormSum(o), o.norm, o.normeps), <<NormSum(o), o.norm, o.normeps>> >> >>

Judge(cc) ==
  LET o == Cases[cc].o IN
  CASE Cases[cc].j = "eig" -> JEig(o)
    [] Cases[cc].j = "prop" -> JProp(o)
    [] Cases[cc].j = "eigf" -> JEigf(o)

Failures(j) == SelectSeq(j, LAMBDA t: ~t[2])

Decide == /\ verdict = "running"
          /\ r = Len(Cases[c].runs) + 1
          /\ LET f == Failures(Judge(c)) IN
             /\ verdict' = IF f = <<>> THEN "ok" ELSE "rejected"
             /\ IF f = <<>> THEN TRUE ELSE PrintT(<<"REJECT", Cases[c].id, [i \in 1..Len(f) |-> <<f[i][1], f[i][3]>>]>>)
          /\ UNCHANGED <<c, r, k, ray, res>>

Next == Step \/ EndRun \/ Decide
Spec == Init /\ [][Next]_vars
TypeOk == verdict \in {"running", "ok", "rejected"} /\ ray.z >= 0
====
