---- MODULE Poly ----
(* Algebra of polynomials of fixed degree: a polynomial is the tuple of its coefficients, constant term first.  The
   operations are those of util/polynomial.h; the degree of a result depends on the degrees of the operands only.
   Values and coefficients are integers (the trace machine counts them in units). *)
EXTENDS Integers, Sequences, TLC, Json

RECURSIVE Sum(_, _), Pow(_, _), Fall(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Fall(i, d) == IF d = 0 THEN 1 ELSE i * Fall(i - 1, d - 1)      \* i (i-1) .. (i-d+1)
MaxI(a, b) == IF a > b THEN a ELSE b

Deg(p) == Len(p) - 1
C(p, k) == IF k + 1 \in DOMAIN p THEN p[k + 1] ELSE 0          \* coefficient of x^k
Tup(d, f(_)) == [k \in 1..d+1 |-> f(k - 1)]
PAdd(p, q) == Tup(MaxI(Deg(p), Deg(q)), LAMBDA k: C(p, k) + C(q, k))
PSub(p, q) == Tup(MaxI(Deg(p), Deg(q)), LAMBDA k: C(p, k) - C(q, k))
PMul(p, q) == Tup(Deg(p) + Deg(q), LAMBDA k: Sum([j \in 1..k+1 |-> C(p, j - 1) * C(q, k - j + 1)], k + 1))
Scale(p, s) == Tup(Deg(p), LAMBDA k: s * C(p, k))
Divd(p, s) == Tup(Deg(p), LAMBDA k: IF s > 0 THEN C(p, k) \div s ELSE (-C(p, k)) \div (-s))
DividesAll(p, s) == s # 0 /\ \A k \in 0..Deg(p) : C(p, k) % (IF s > 0 THEN s ELSE -s) = 0
Const(p, s) == Tup(Deg(p), LAMBDA k: IF k = 0 THEN s ELSE 0)
Der(p, d) == Tup(Deg(p) - d, LAMBDA k: Fall(k + d, d) * C(p, k + d))
Integ(p) == Tup(Deg(p) + 1, LAMBDA k: IF k = 0 THEN 0 ELSE C(p, k - 1) \div k)
IntegOk(p) == \A k \in 0..Deg(p) : C(p, k) % (k + 1) = 0
Lift(p, d) == Tup(Deg(p) + d, LAMBDA k: C(p, k))
Eval(p, x) == Sum([k \in 1..Len(p) |-> C(p, k - 1) * Pow(x, k - 1)], Len(p))

----
(* exhaustive check of the algebra on small polynomials, and the programs that are replayed *)
Coefs == {-2, 0, 3}
Xs == {-3, -1, 0, 2}
VARIABLES p, q, x, prog
vars == <<p, q, x, prog>>
Small == UNION {[1..d -> Coefs] : d \in 1..3}
Binary == {"add", "sub", "mul", "iadd", "isub", "asg", "eq", "ne"}
Unary == {"neg", "pos", "der0", "der1", "der2", "der3", "integ", "up", "up2", "sadd", "ssub", "smul", "sdiv", "rsadd", "rssub", "rsmul",
          "isadd", "issub", "ismul", "isdiv", "fill"}
Init == /\ \/ p \in Small /\ q \in Small /\ x \in Xs /\ prog = <<>>
           \/ p = <<0>> /\ q = <<0>> /\ x = 0 /\ prog \in [1..2 -> Binary \cup Unary]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ring == /\ Eval(PAdd(p, q), x) = Eval(p, x) + Eval(q, x)
        /\ Eval(PSub(p, q), x) = Eval(p, x) - Eval(q, x)
        /\ Eval(PMul(p, q), x) = Eval(p, x) * Eval(q, x)
        /\ PAdd(p, q) = PAdd(q, p) /\ PMul(p, q) = PMul(q, p)
        /\ PMul(PAdd(p, q), p) = PAdd(PMul(p, p), PMul(q, p))
        /\ PSub(PAdd(p, q), q) = Lift(p, MaxI(0, Deg(q) - Deg(p)))
        /\ Eval(Scale(p, x), x) = x * Eval(p, x)
Calculus == /\ Deg(p) >= 1 /\ Deg(q) >= 1 =>
                 PAdd(PMul(Der(p, 1), q), PMul(p, Der(q, 1))) = Der(PMul(p, q), 1)      \* product rule
            /\ Deg(p) >= 2 => Der(Der(p, 1), 1) = Der(p, 2)
            /\ LET P == Scale(p, 6) IN IntegOk(P) /\ Der(Integ(P), 1) = P /\ Eval(Integ(P), 0) = 0
Emit == prog # <<>> => PrintT(<<"TRACE", ToJson(prog)>>)
====
