---- MODULE SessionTrace ----
(* Recorded sessions (see Session.tla).  Every event of a case is a request with
     q    key of the request (type, object class, problem and arguments, but not the object or the time)
     t    shape of the request, which decides if it is valid:
            "any"     always valid
            "range"   index range i[1]..i[2]
            "points"  points with ranks x that must be inside the domain with ranks d[1], d[2]
            "sides"   two boundary conditions given by the ranks of their components, required to be identical
            "array"   ranks x of an array of points that must be sorted
     k    "ok", "exc" (rejected) or something else (crash, no answer)
     a    recorded answer (all digits)
   or an observation of the evaluations of the user's functions:
     t = "samples": n[1] evaluations before and n[2] after the construction was finished, n[3] outside of the domain.
   The state of the machine is the set of answers known so far; an answer already known may not change. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)
VARIABLES c, k, memo, verdict
vars == <<c, k, memo, verdict>>
Events(cc) == Cases[cc].e
Init == c \in 1..Len(Cases) /\ k = 1 /\ memo = [q \in {} |-> ""] /\ verdict = "running"

Valid(e) ==
  CASE e.t = "any" -> TRUE
    [] e.t = "range" -> e.i[1] >= 0 /\ e.i[1] <= e.i[2]
    [] e.t = "points" -> \A n \in DOMAIN e.x : e.d[1] <= e.x[n] /\ e.x[n] <= e.d[2]
    [] e.t = "sides" -> e.x[1] = e.x[3] /\ e.x[2] = e.x[4]
    [] e.t = "array" -> \A n \in 1..Len(e.x) - 1 : e.x[n] <= e.x[n + 1]
    [] e.t = "sidesrange" -> e.x[1] = e.x[3] /\ e.x[2] = e.x[4] /\ e.i[1] >= 0 /\ e.i[1] <= e.i[2]

Problem(e) ==
  IF e.t = "samples" THEN
       IF e.n[1] = 0 THEN "never sampled"
       ELSE IF e.n[2] # 0 THEN "sampled after construction"
       ELSE IF e.n[3] # 0 THEN "sampled outside of the domain"
       ELSE ""
  ELSE IF e.k \notin {"ok", "exc"} THEN "no answer"
  ELSE IF e.k = "exc" THEN (IF Valid(e) THEN "valid request rejected" ELSE "")
  ELSE IF ~Valid(e) THEN "invalid request answered"
  ELSE IF e.q \in DOMAIN memo THEN (IF memo[e.q] = e.a THEN "" ELSE "answer changed")
  ELSE ""

Step == /\ verdict = "running"
        /\ k <= Len(Events(c))
        /\ LET e == Events(c)[k]
               p == Problem(e)
           IN /\ memo' = IF p = "" /\ e.t # "samples" /\ e.k = "ok" /\ e.q \notin DOMAIN memo THEN memo @@ (e.q :> e.a) ELSE memo
              /\ verdict' = IF p = "" THEN verdict ELSE "rejected"
              /\ IF p = "" THEN TRUE ELSE PrintT(<<"REJECT", Cases[c].id, << <<p, k, e.s>> >> >>)
        /\ k' = k + 1
        /\ UNCHANGED c
Finish == /\ verdict = "running"
          /\ k = Len(Events(c)) + 1
          /\ verdict' = "ok"
          /\ UNCHANGED <<c, k, memo>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
TypeOk == verdict \in {"running", "ok", "rejected"} /\ k \in 1..Len(Events(c)) + 1
====
