---- MODULE RayTrace ----
(* Conformance of recorded executions with the ray machine of Ray.tla.

   Probs: sequence of step chains; Cases: sequence of
     [id, j, runs, o]  with runs[i] = [p, i0, i1, u, v, d, g]
   Every case is an initial state.  The machine executes the runs one Taylor step per transition and,
   once all runs are complete, judges the recorded observation o against the rays (operator Judge). *)
EXTENDS Ray, Periodic, Json, IOUtils, FiniteSets

Probs == ndJsonDeserialize(IOEnv.RAY_PROBS)
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)

VARIABLES c,      \* case
          r,      \* current run (Len+1 when all runs are done)
          k,      \* next step of that run
          ray,    \* ray of the current run
          res,    \* rays of the completed runs
          verdict \* "running" | "ok" | "rejected"
vars == <<c, r, k, ray, res, verdict>>

RunOf(cc, i) == Cases[cc].runs[i]
NoRay == [u |-> Zero, v |-> Zero, ue |-> Zero, ve |-> Zero, ex |-> 0, z |-> 0, s |-> 0]
Start(cc, i) ==
  IF i > Len(Cases[cc].runs) THEN NoRay
  ELSE LET q == RunOf(cc, i)
       IN StartRay(q.u, q.v, IF "ue" \in DOMAIN q THEN q.ue ELSE Zero, IF "ue" \in DOMAIN q THEN q.ve ELSE Zero,
                   IF q.i0 < q.i1 THEN SgnDir(Probs[q.p].s[q.i0 + 1]) ELSE 1)

Init == /\ c \in 1..Len(Cases)
        /\ r = 1
        /\ k = IF Len(Cases[c].runs) = 0 THEN 0 ELSE RunOf(c, 1).i0
        /\ ray = Start(c, 1)
        /\ res = <<>>
        /\ verdict = "running"

Step == /\ verdict = "running"
        /\ r <= Len(Cases[c].runs)
        /\ k < RunOf(c, r).i1
        /\ ray' = LET q == RunOf(c, r) IN Advance(Probs[q.p].s[k+1], q.g, q.d, ray)
        /\ k' = k + 1
        /\ UNCHANGED <<c, r, res, verdict>>

EndRun == /\ verdict = "running"
          /\ r <= Len(Cases[c].runs)
          /\ k = RunOf(c, r).i1
          /\ res' = Append(res, ray)
          /\ r' = r + 1
          /\ k' = IF r = Len(Cases[c].runs) THEN 0 ELSE RunOf(c, r+1).i0
          /\ ray' = Start(c, r+1)
          /\ UNCHANGED <<c, verdict>>

----
(* judges: a sequence of <<name, holds, detail>> *)

FloorInt(x) == x[FracLimbs+1] + B * x[FracLimbs+2]
FracPart(x) == Sub(x, Int2Fix(FloorInt(x)))

(* ray components in the exponent of an observation *)
Rel(x, ex, oex) == Shift10(x, ex - oex)

(* values of ray x agree with the observation o = [y |-> <<u,v>>, ex |-> .., eps |-> ..] *)
AgreesY(x, o) == /\ Near(Rel(x.u, x.ex, o.ex), o.y[1], o.eps)
                 /\ Near(Rel(x.v, x.ex, o.ex), o.y[2], o.eps)
AgreesE(x, o) == /\ Near(Rel(x.ue, x.ex, o.exe), o.ye[1], o.epse)
                 /\ Near(Rel(x.ve, x.ex, o.exe), o.ye[2], o.epse)

(* Pruefer angle th (in units of pi) at the end of a ray: multiples of pi passed = zeros passed,
   remainder = quadrant of (u, v).  dir = 1: th in [0,1) at the start, dir = -1: (0,1].
   Angles within tiny of a multiple of pi/2 may fall on either side. *)
AngleOk(x, th, dir, Tiny) ==
  LET f == FracPart(th)
      fl == FloorInt(th)
      nearInt == Less(f, Tiny) \/ Less(Sub(One, f), Tiny)
      nearHalf == Less(Abs(Sub(f, Half(One))), Tiny)
      turns == IF dir > 0 THEN x.z ELSE -x.z
      smallu == Less(Abs(x.u), Tiny)
      smallv == Less(Abs(x.v), Tiny)
  IN /\ IF nearInt \/ smallu
        THEN fl \in {turns - 1, turns, turns + 1}
        ELSE fl = turns
     /\ (nearInt \/ nearHalf \/ smallu \/ smallv) \/ (Less(f, Half(One)) <=> (Sgn(x.u) = Sgn(x.v)))

JProp(o) ==
  LET x == res[1] IN
  << <<"value", AgreesY(x, o), <<x.u, x.v, x.ex>> >>,
     <<"dE", ("ye" \in DOMAIN o) => AgreesE(x, o), <<x.ue, x.ve, x.ex>> >>,
     <<"angle", ("th" \in DOMAIN o) => AngleOk(x, o.th, o.dir, o.tiny), <<x.z, x.u, x.v>> >> >>

(* eigenvalue with index n: fewer than n+1 eigenvalues below E-d, at least n+1 below E+d *)
JEig(o) ==
  LET lo == CountBelow(res[1], o.ru, o.rv)
      hi == CountBelow(res[2], o.ru, o.rv)
  IN << <<"index", lo <= o.n /\ hi >= o.n + 1, <<lo, hi>> >> >>

(* counts at energies: o.n[i] = recorded count, runs 2i-1, 2i at E-d, E+d *)
JCount(o) ==
  [i \in 1..Len(o.n) |->
     LET lo == CountBelow(res[2*i-1], o.ru, o.rv)
         hi == CountBelow(res[2*i], o.ru, o.rv)
     IN <<"count", lo <= o.n[i] /\ o.n[i] <= hi, <<i, lo, hi>> >>]

(* interval query (Emin, Emax) answered by indices o.first .. o.first+o.m-1 (o.m = 0: empty);
   runs at Emin-d, Emin+d, Emax-d, Emax+d *)
JWindow(o) ==
  LET n == [i \in 1..4 |-> CountBelow(res[i], o.ru, o.rv)]
  IN << <<"window", IF o.m = 0 THEN n[3] <= n[2]
                    ELSE n[1] <= o.first /\ o.first <= n[2] /\ n[3] <= o.first + o.m /\ o.first + o.m <= n[4],
          n>> >>

(* the recorded execution ended normally *)
JStatus(o) == << <<"status", o.status = "ok", o.status>> >>

(* pairs of numbers that have to agree: o.p[i] = [n |-> name, a |-> .., b |-> .., e |-> eps] *)
JNear(o) == [i \in 1..Len(o.p) |-> <<o.p[i].n, Near(o.p[i].a, o.p[i].b, o.p[i].e), <<i, o.p[i].a, o.p[i].b>> >>]
(* strictly / weakly increasing sequence of numbers (already in one scale) *)
Increasing(x) == \A i \in 1..Len(x) - 1 : ~Less(x[i+1], x[i])

(* index windows of one problem: o.q[i] = [lo, hi, ix, e]: indices ix and energies e (sequences) answered to the request
   lo..hi-1; o.base, o.ref: the eigenvalue with index o.base + k - 1 is o.ref[k] *)
JWindows(o) ==
  [i \in 1..Len(o.q) |->
     LET q == o.q[i] IN
     <<"indices", /\ q.ix = [j \in 1..q.hi-q.lo |-> q.lo + j - 1]
                  /\ Len(q.e) = Len(q.ix)
                  /\ \A j \in 1..Len(q.e) - 1 : ~Less(Add(q.e[j+1], o.slack), q.e[j])
                  /\ \A j \in 1..Len(q.e) : Near(q.e[j], o.ref[q.lo + j - o.base], o.eps),
      <<q.lo, q.hi, q.ix, q.e>> >>]

(* Wronskian of two solutions: u1 v2 - u2 v1 at both ends; o.w[i] = [a1, a2, b1, b2 (pairs), e] in one scale *)
Wronskian(x, y) == Sub(Mul(x[1], y[2]), Mul(x[2], y[1]))
JWron(o) == [i \in 1..Len(o.w) |->
   LET q == o.w[i] IN <<"wronskian", Near(Wronskian(q.a1, q.a2), Shift10(Wronskian(q.b1, q.b2), q.ex), q.e),
                        <<i, Wronskian(q.a1, q.a2), Wronskian(q.b1, q.b2)>> >>]

(* Eigenfunction, recorded at increasing sample points with at most one zero between neighbours.  Run i leads from
   sample i to sample i+1 and starts in the recorded state of sample i, scaled by 10^-o.ex[i] (d = TRUE);
   o.b[i] is the recorded state of sample i+1 in the scale of run i.
   - every sample continues the solution through the previous one within o.eps[i]; at most o.maxbad segments (those with
     the matching point, where the rounded eigenvalue leaves a jump) may deviate up to o.jump[i];
   - both boundary conditions (o.l, o.r: directions; <<0,0>>: none) in the states o.first, o.last;
   - o.n sign changes in the sequence o.sg of signs (o.n = -1: not checked);
   - the norm: om * Int w y^2 = Sum (ue v - ve u) *)
SegOk(o, i, eps) == Near(Rel(res[i].u, res[i].ex, 0), o.b[i][1], eps) /\ Near(Rel(res[i].v, res[i].ex, 0), o.b[i][2], eps)
SegNorm(o, i) == Shift10(Sub(Mul(res[i].ue, res[i].v), Mul(res[i].ve, res[i].u)), 2*(res[i].ex + o.ex[i]))
NormSum(o) == FoldLeft(LAMBDA x, y: Add(x, y), Zero, [i \in 1..Len(res) |-> SegNorm(o, i)])
SignSeq(o) == SelectSeq(o.sg, LAMBDA t: t # 0)
Changes(x) == Cardinality({i \in 1..Len(x) - 1 : x[i] # x[i+1]})
OnBc(y, d, eps) == (IsZero(d[1]) /\ IsZero(d[2])) \/ Leq(Abs(Wronskian(y, d)), eps)
JEigf(o) ==
  LET bad == {i \in 1..Len(res) : ~SegOk(o, i, o.eps[i])}
  IN << <<"equation", Cardinality(bad) <= o.maxbad /\ \A i \in bad : SegOk(o, i, o.jump[i]),
          {<<i, res[i].u, res[i].v, res[i].ex, o.b[i], o.eps[i], o.jump[i]>> : i \in bad} >>,
        <<"left", OnBc(o.first, o.l, o.lbceps), <<o.first, o.l>> >>,
        <<"right", OnBc(o.last, o.r, o.rbceps), <<o.last, o.r>> >>,
        <<"zeros", o.n < 0 \/ Changes(SignSeq(o)) = o.n, Changes(SignSeq(o))>>,
        <<"norm", ~o.hasnorm \/ Near(NormSum(o), o.norm, o.normeps), <<NormSum(o), o.norm, o.normeps>> >> >>

(* matching angles (units of pi) at increasing energies: o.th increases (up to o.slack); a recorded angle rounded up
   is the number of eigenvalues below the energy: runs 2i-1, 2i at E_i - d, E_i + d *)
CeilInt(x) == IF IsZero(FracPart(x)) THEN FloorInt(x) ELSE FloorInt(x) + 1
JMatch(o) ==
  [i \in 1..Len(o.th) |->
     LET lo == CountBelow(res[2*i-1], o.ru, o.rv)
         hi == CountBelow(res[2*i], o.ru, o.rv)
         n == CeilInt(o.th[i])
     IN <<"matching angle", lo <= n /\ n <= hi, <<i, n, lo, hi>> >>]
  \o << <<"monotone", \A i \in 1..Len(o.th) - 1 : ~Less(Add(o.th[i+1], o.slack), o.th[i]), o.th>> >>

(* coupled boundary conditions: runs 2i-1, 2i from (1, 0) and (0, 1) at the i-th energy; the number of eigenvalues below
   it is at least o.lo[i] and at most o.hi[i] *)
JCoupled(o) ==
  [i \in 1..Len(o.lo) |->
     LET n == CoupledBelow(res[2*i-1], res[2*i], o.K) IN <<o.nm[i], o.lo[i] <= n /\ n <= o.hi[i], <<i, n, o.lo[i], o.hi[i], res[2*i].z>> >>]

(* no eigenvalue between two energies *)
JSame(o) == << <<"none between", CoupledBelow(res[1], res[2], o.K) <= CoupledBelow(res[3], res[4], o.K),
                 <<CoupledBelow(res[1], res[2], o.K), CoupledBelow(res[3], res[4], o.K)>> >> >>

(* index requests lo..hi-1 on a coupled problem answered by entries <<index, multiplicity>> with energies e (Bands.tla) *)
JBands(o) ==
  [i \in 1..Len(o.q) |->
     LET q == o.q[i]
         ix == q.ix
     IN <<"entries", /\ \A j \in 1..Len(ix) : q.lo < q.hi /\ ix[j][1] < q.hi /\ ix[j][1] + ix[j][2] > q.lo /\ ix[j][2] \in {1, 2}
                     /\ \A j \in 1..Len(ix)-1 : ix[j][1] + ix[j][2] = ix[j+1][1] /\ ~Less(Add(q.e[j+1], o.slack), q.e[j])
                     /\ (q.lo..q.hi-1) \subseteq UNION {ix[j][1]..ix[j][1]+ix[j][2]-1 : j \in 1..Len(ix)},
          <<q.lo, q.hi, ix, q.e>> >>]

(* coupled eigenfunctions: (y(b), y'(b)) = K (y(a), y'(a)); o.f[i] = [a, b (pairs in one scale), e];
   o.f[1], o.f[2] (if there are two) are linearly independent *)
JImage(o) ==
  [i \in 1..Len(o.f) |->
     LET q == o.f[i] IN
     <<"image", /\ Near(Add(Mul(o.K[1], q.a[1]), Mul(o.K[2], q.a[2])), q.b[1], q.e)
                /\ Near(Add(Mul(o.K[3], q.a[1]), Mul(o.K[4], q.a[2])), q.b[2], q.e), <<i, q.a, q.b>> >>]
  \o << <<"number", Len(o.f) = o.n, Len(o.f)>> >>
  \o (IF Len(o.f) = 2 THEN << <<"independent", Less(o.indep, Abs(Wronskian(o.f[1].a, o.f[2].a))), Wronskian(o.f[1].a, o.f[2].a)>> >> ELSE <<>>)

(* an eigenfunction evaluated at the same points as an array and one by one: q.x[j] = [out, ar, pt, e]; out: the point is
   outside of the domain.  o.h: <<f(x), f(x+h), (difference quotient), mean derivative, eps>> *)
NullPair == <<Zero, Zero>>
JEval(o) ==
  [i \in 1..Len(o.q) |->
     LET q == o.q[i] IN
     <<"evaluation", \A j \in 1..Len(q) :
        IF q[j].out THEN q[j].ar = NullPair /\ q[j].pt = NullPair
        ELSE Near(q[j].ar[1], q[j].pt[1], q[j].e) /\ Near(q[j].ar[2], q[j].pt[2], q[j].e), <<i, q>> >>]
  \o [i \in 1..Len(o.h) |-> <<"derivative", Near(Sub(o.h[i].b, o.h[i].a), o.h[i].d, o.h[i].e), <<i, o.h[i]>> >>]

Judge(cc) ==
  LET o == Cases[cc].o IN
  CASE Cases[cc].j = "prop" -> JProp(o)
    [] Cases[cc].j = "status" -> JStatus(o)
    [] Cases[cc].j = "eig" -> JEig(o)
    [] Cases[cc].j = "count" -> JCount(o)
    [] Cases[cc].j = "window" -> JWindow(o)
    [] Cases[cc].j = "near" -> JNear(o)
    [] Cases[cc].j = "windows" -> JWindows(o)
    [] Cases[cc].j = "wron" -> JWron(o)
    [] Cases[cc].j = "eigf" -> JEigf(o)
    [] Cases[cc].j = "match" -> JMatch(o)
    [] Cases[cc].j = "bands" -> JBands(o)
    [] Cases[cc].j = "same" -> JSame(o)
    [] Cases[cc].j = "coupled" -> JCoupled(o)
    [] Cases[cc].j = "image" -> JImage(o)
    [] Cases[cc].j = "eval" -> JEval(o)

Failures(j) == SelectSeq(j, LAMBDA t: ~t[2])

Decide == /\ verdict = "running"
          /\ r = Len(Cases[c].runs) + 1
          /\ LET f == Failures(Judge(c)) IN
             /\ verdict' = IF f = <<>> THEN "ok" ELSE "rejected"
             /\ IF f = <<>> THEN TRUE ELSE PrintT(<<"REJECT", Cases[c].id, [i \in 1..Len(f) |-> <<f[i][1], f[i][3]>>]>>)
          /\ UNCHANGED <<c, r, k, ray, res>>

Next == Step \/ EndRun \/ Decide
Spec == Init /\ [][Next]_vars

(* used to obtain a TLC counterexample for a single rejected case *)
Conforms == verdict # "rejected"
TypeOk == verdict \in {"running", "ok", "rejected"} /\ ray.z >= 0
====
