---- MODULE PolyTrace ----
(* Replays a recorded program on polynomials: the state is the set of registers; every recorded operation must produce
   the polynomial of the specification, change its target only (the assigned register, and for an in-place operation its
   left operand) and every observation must be the value of the specification.
   A case: o.s = sequence of operations [op, d (target), a, b, x (integer argument), c (recorded result), r (recorded registers)] *)
EXTENDS Poly, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.RAY_CASES)
VARIABLES c, k, regs, verdict
tvars == <<c, k, regs, verdict>>
S(cc) == Cases[cc].o.s
Names(cc) == DOMAIN Cases[cc].o.names

TInit == /\ c \in 1..Len(Cases) /\ k = 1 /\ verdict = "running"
         /\ regs = [n \in {} |-> <<>>]
         /\ p = <<0>> /\ q = <<0>> /\ x = 0 /\ prog = <<>>

InPlace == {"iadd", "isub", "isadd", "issub", "ismul", "isdiv", "asg"}
Bool(b) == IF b THEN <<1>> ELSE <<0>>
Result(e) ==
  LET a == regs[e.a] IN
  CASE e.op = "add" -> PAdd(a, regs[e.b])
    [] e.op = "sub" -> PSub(a, regs[e.b])
    [] e.op = "mul" -> PMul(a, regs[e.b])
    [] e.op = "iadd" -> PAdd(a, regs[e.b])
    [] e.op = "isub" -> PSub(a, regs[e.b])
    [] e.op = "asg" -> regs[e.b]
    [] e.op = "eq" -> Bool(a = regs[e.b])
    [] e.op = "ne" -> Bool(a # regs[e.b])
    [] e.op = "neg" -> Scale(a, -1)
    [] e.op \in {"pos", "der0"} -> a
    [] e.op = "der1" -> Der(a, 1)
    [] e.op = "der2" -> Der(a, 2)
    [] e.op = "der3" -> Der(a, 3)
    [] e.op = "integ" -> Integ(a)
    [] e.op = "up" -> Lift(a, 1)
    [] e.op = "up2" -> Lift(a, 2)
    [] e.op \in {"sadd", "rsadd", "isadd"} -> PAdd(a, <<e.x>>)
    [] e.op \in {"ssub", "issub"} -> PSub(a, <<e.x>>)
    [] e.op = "rssub" -> PSub(<<e.x>>, a)
    [] e.op \in {"smul", "rsmul", "ismul"} -> Scale(a, e.x)
    [] e.op \in {"sdiv", "isdiv"} -> Divd(a, e.x)
    [] e.op = "fill" -> Const(a, e.x)
    [] e.op = "size" -> <<Len(a)>>
    [] e.op = "eval" -> <<Eval(a, e.x)>>
    [] e.op = "deval0" -> <<Eval(a, e.x)>>
    [] e.op = "deval1" -> <<IF Deg(a) >= 1 THEN Eval(Der(a, 1), e.x) ELSE 0>>
    [] e.op = "deval2" -> <<IF Deg(a) >= 2 THEN Eval(Der(a, 2), e.x) ELSE 0>>
    [] e.op = "deval3" -> <<IF Deg(a) >= 3 THEN Eval(Der(a, 3), e.x) ELSE 0>>
    [] e.op = "ieval" -> <<Eval(Integ(a), e.x)>>
Observations == {"size", "eval", "deval0", "deval1", "deval2", "deval3", "ieval"}
(* the premises of exactness: divisions come out *)
Exact(e) == CASE e.op \in {"integ", "ieval"} -> IntegOk(regs[e.a])
              [] e.op \in {"sdiv", "isdiv"} -> DividesAll(regs[e.a], e.x)
              [] OTHER -> TRUE
With(r, n, v) == [m \in DOMAIN r \cup {n} |-> IF m = n THEN v ELSE r[m]]

Step == /\ verdict = "running" /\ k <= Len(S(c))
        /\ LET e == S(c)[k] IN
           IF e.op = "new" THEN regs' = With(regs, e.d, e.c) /\ verdict' = verdict
           ELSE
             LET v == Result(e)
                 r1 == IF e.op \in InPlace THEN With(regs, e.a, v) ELSE regs
                 r2 == IF e.op \in Observations THEN r1 ELSE With(r1, e.d, v)
                 bad == (IF Exact(e) THEN <<>> ELSE << <<"inexact program", e.op>> >>)
                        \o (IF v = e.c THEN <<>> ELSE << <<e.op, regs[e.a], IF "b" \in DOMAIN e THEN regs[e.b] ELSE IF "x" \in DOMAIN e THEN e.x ELSE 0, v, e.c>> >>)
                        \o (IF r2 = e.r THEN <<>> ELSE << <<"registers", e.op, r2, e.r>> >>)
             IN /\ regs' = r2
                /\ verdict' = IF bad = <<>> THEN verdict ELSE "rejected"
                /\ IF bad = <<>> THEN TRUE ELSE PrintT(<<"REJECT", Cases[c].id, bad>>)
        /\ k' = k + 1
        /\ UNCHANGED <<c, vars>>
Accept == verdict = "running" /\ k > Len(S(c)) /\ verdict' = "accepted" /\ UNCHANGED <<c, k, regs, vars>>
TNext == Step \/ Accept
TSpec == TInit /\ [][TNext]_tvars
TypeOk == verdict \in {"running", "accepted", "rejected"}
====
