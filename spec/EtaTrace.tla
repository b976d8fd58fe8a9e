---- MODULE EtaTrace ----
(* Runs the eta machine for the argument of every case and judges the recorded values.
   o.Z argument; o.v recorded vectors (each a request for some number of functions, single or in an array);
   o.tol rounding unit of the scalar type times a factor (see checks/C26.py). *)
EXTENDS Eta, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)
TArgs == <<>>
VARIABLES c, verdict
O(cc) == Cases[cc].o
TInit == /\ c \in 1..Len(Cases) /\ verdict = "running" /\ first = <<>>
         /\ LET x == O(c).Z IN Start(x, IF InDisk(x) THEN 0 ELSE Halvings(x, 0))
Run == verdict = "running" /\ ENext /\ UNCHANGED <<c, verdict, first>>

(* sensitivity of eta_m to a relative change of its argument, plus its size *)
Sens(m) == IF Len(s) > 2 THEN FAdd(FAbs(s[m]), FDivInt(FAbs(FMul(Z, s[m+1])), 2))
           ELSE IF m = 1 THEN FAdd(FAbs(s[1]), FAbs(FDivInt(FMul(Z, s[2]), 2)))
           ELSE FAdd(FAbs(s[2]), FDivInt(FAdd(FAbs(s[1]), FAbs(s[2])), 2))
ValueBad(v) == { m \in 1..(IF Len(s) > 2 THEN Len(v) ELSE 2) : ~FNear(v[m], s[m], FMul(O(c).tol, Sens(m))) }
RecBad(v) == { m \in 2..(Len(v) - 1) :
                 LET a == FMul(Z, v[m+1])  b == FMulInt(v[m], 2 * m - 3)
                 IN ~FNear(v[m-1], FAdd(a, b), FMul(O(c).tol, FSum3(FAbs(v[m-1]), FAbs(a), FAbs(b)))) }
IdBad(v) == LET a == FMul(v[1], v[1])  b == FMul(Z, FMul(v[2], v[2]))  x == FMul(Z, FMul(v[1], v[2]))
            IN ~FNear(a, FAdd(b, FOne), FMul(O(c).tol, FAdd(FSum3(FAbs(a), FAbs(b), FAbs(x)), FOne)))
Bad(v) == (IF ValueBad(v) = {} THEN <<>> ELSE << <<"value", ValueBad(v)>> >>)
          \o (IF RecBad(v) = {} THEN <<>> ELSE << <<"recurrence", RecBad(v)>> >>)
          \o (IF IdBad(v) THEN << <<"identity">> >> ELSE <<>>)
Judge == /\ verdict = "running" /\ ph = "done"
         /\ LET bad == { i \in 1..Len(O(c).v) : Bad(O(c).v[i]) # <<>> } IN
            /\ verdict' = (IF bad = {} THEN "accepted" ELSE "rejected")
            /\ IF bad = {} THEN TRUE
               ELSE PrintT(<<"REJECT", Cases[c].id, LET i == CHOOSE i \in bad : TRUE IN <<i, Bad(O(c).v[i])>> >>)
         /\ UNCHANGED <<evars, c, first>>
TNext == Run \/ Judge
TSpec == TInit /\ [][TNext]_<<evars, c, verdict, first>>
TypeOk == verdict \in {"running", "accepted", "rejected"}
====
