---- MODULE MeshTrace ----
(* Recorded meshes as behaviours of Mesh.tla.  Positions are ranks (equal numbers have equal ranks).
     s   sectors <<min, max, direction>> (1 forward, -1 backward), d  ends of the domain, mi match index (0-based),
     j   declared discontinuities, n  number of sectors requested from the uniform builder (0: automatic), hz TRUE iff every
         recorded width h is positive and equals max - min
   The machine performs the forward sectors up to the match index, then the backward ones from the right end; every step has to
   be a step of Mesh.tla. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.RAY_CASES)
VARIABLES c, f, b, nf, nb, verdict
vars == <<c, f, b, nf, nb, verdict>>
O == Cases[c].o
N == Len(O.s)
Init == c \in 1..Len(Cases) /\ f = Cases[c].o.d[1] /\ b = Cases[c].o.d[2] /\ nf = 0 /\ nb = 0 /\ verdict = "running"
Splits == {j \in {O.j[i] : i \in DOMAIN O.j} : O.d[1] < j /\ j < O.d[2]}
Crossed(s) == \E j \in Splits : s[1] < j /\ j < s[2]
Fail(p, x) == /\ verdict' = "rejected" /\ PrintT(<<"REJECT", Cases[c].id, << <<p, nf, nb, x>> >> >>)
Forward == /\ verdict = "running" /\ nf <= O.mi /\ nf < N
           /\ LET s == O.s[nf + 1] IN
              /\ IF s[3] # 1 THEN Fail("sector before the match index is not forward", s)
                 ELSE IF s[1] # f THEN Fail("gap", s)
                 ELSE IF s[2] <= s[1] THEN Fail("width", s)
                 ELSE IF s[2] > b THEN Fail("front passed", s)
                 ELSE IF Crossed(s) THEN Fail("discontinuity inside of a sector", s)
                 ELSE verdict' = verdict
              /\ f' = s[2] /\ nf' = nf + 1
           /\ UNCHANGED <<c, b, nb>>
Backward == /\ verdict = "running" /\ nf = O.mi + 1 /\ nf + nb < N
            /\ LET s == O.s[N - nb] IN
               /\ IF s[3] # -1 THEN Fail("sector after the match index is not backward", s)
                  ELSE IF s[2] # b THEN Fail("gap", s)
                  ELSE IF s[2] <= s[1] THEN Fail("width", s)
                  ELSE IF s[1] < f THEN Fail("front passed", s)
                  ELSE IF Crossed(s) THEN Fail("discontinuity inside of a sector", s)
                  ELSE verdict' = verdict
               /\ b' = s[1] /\ nb' = nb + 1
            /\ UNCHANGED <<c, f, nf>>
Finish == /\ verdict = "running"
          /\ (nf = O.mi + 1 /\ nf + nb = N) \/ nf > O.mi + 1 \/ nf = N
          /\ IF N = 0 THEN Fail("empty", 0)
             ELSE IF O.mi < 0 \/ O.mi >= N THEN Fail("match index", O.mi)
             ELSE IF f # b THEN Fail("incomplete", <<f, b>>)
             ELSE IF ~O.hz THEN Fail("recorded width", 0)
             ELSE IF O.n > 0 /\ N # O.n THEN Fail("number of sectors", N)
             ELSE verdict' = "ok"
          /\ UNCHANGED <<c, f, b, nf, nb>>
Next == Forward \/ Backward \/ (Finish /\ ~ENABLED Forward /\ ~ENABLED Backward)
Spec == Init /\ [][Next]_vars
TypeOk == verdict \in {"running", "ok", "rejected"} /\ nf + nb <= N
====
