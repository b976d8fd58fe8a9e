---- MODULE FormsTrace ----
(* The eigenvalues recorded for a problem are mapped, generator by generator, to those its form must have, and compared
   with the eigenvalues recorded for the form.
   o.steps: [k |-> "add" | "mul" | "div", x |-> number (Flo)]; o.q: sequence of requests [ref, got] of (index, multiplicity,
   eigenvalue) triples, with eps the allowed distance in the units of the form; lo, hi (mapped along) limits of an energy
   request, within eps of which an eigenvalue may be in one of the answers only; win: the request was for indices. *)
EXTENDS Flo, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)
VARIABLES c, k, q, verdict
O(cc) == Cases[cc].o
TInit == c \in 1..Len(Cases) /\ k = 1 /\ q = O(c).q /\ verdict = "running"
Map(s, x) == CASE s.k = "add" -> FAdd(x, s.x) [] s.k = "mul" -> FMul(x, s.x) [] s.k = "div" -> FMul(x, s.x)
Step == /\ verdict = "running" /\ k <= Len(O(c).steps)
        /\ LET s == O(c).steps[k] IN
           q' = [j \in 1..Len(q) |-> [q[j] EXCEPT !.ref = [i \in 1..Len(q[j].ref) |-> [q[j].ref[i] EXCEPT !.e = Map(s, q[j].ref[i].e)]],
                                                   !.lo = Map(s, q[j].lo), !.hi = Map(s, q[j].hi)]]
        /\ k' = k + 1 /\ UNCHANGED <<c, verdict>>
Inner(r, s) == SelectSeq(s, LAMBDA t: FLeq(FAdd(r.lo, r.eps), t.e) /\ FLeq(t.e, FSub(r.hi, r.eps)))
(* by index: equal sequences.  By energy: every eigenvalue well inside of one answer is in the other one. *)
Same(r, s, t) == s.i = t.i /\ s.m = t.m /\ FNear(s.e, t.e, r.eps)
ReqBad(r) == IF r.win THEN ~(Len(r.ref) = Len(r.got) /\ \A i \in 1..Len(r.ref) : Same(r, r.ref[i], r.got[i]))
             ELSE \/ \E i \in 1..Len(Inner(r, r.ref)) : \A j \in 1..Len(r.got) : ~Same(r, Inner(r, r.ref)[i], r.got[j])
                  \/ \E i \in 1..Len(Inner(r, r.got)) : \A j \in 1..Len(r.ref) : ~Same(r, Inner(r, r.got)[i], r.ref[j])
Judge == /\ verdict = "running" /\ k > Len(O(c).steps)
         /\ LET bad == {j \in 1..Len(q) : ReqBad(q[j])} IN
            /\ verdict' = (IF bad = {} THEN "accepted" ELSE "rejected")
            /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", Cases[c].id, LET j == CHOOSE j \in bad : TRUE IN
                 <<"request", j, [i \in 1..Len(q[j].ref) |-> <<q[j].ref[i].i, q[j].ref[i].e.m[8], q[j].ref[i].e.m[7], q[j].ref[i].e.e>>],
                                 [i \in 1..Len(q[j].got) |-> <<q[j].got[i].i, q[j].got[i].e.m[8], q[j].got[i].e.m[7], q[j].got[i].e.e>>]>> >>)
         /\ UNCHANGED <<c, k, q>>
TNext == Step \/ Judge
TSpec == TInit /\ [][TNext]_<<c, k, q, verdict>>
TypeOk == verdict \in {"running", "accepted", "rejected"}
====
