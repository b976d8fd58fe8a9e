---- MODULE Flo ----
(* Decimal floating-point numbers over FixHi: [m, e] is m * 10^e with 0.1 <= |m| < 1 (32 digits), or m = 0. Relative
   error of one operation below 10^-30. *)
EXTENDS FixHi
FNorm(m, e) == IF m = Zero THEN [m |-> Zero, e |-> 0]
               ELSE LET d == Expo(m) IN [m |-> Shift10(m, -d), e |-> e + d]
FZero == [m |-> Zero, e |-> 0]
FInt(n) == FNorm(Int2Fix(n), 0)
FOne == FInt(1)
FTen(e) == FNorm(One, e)
FMul(a, b) == IF a.m = Zero \/ b.m = Zero THEN FZero ELSE FNorm(Mul(a.m, b.m), a.e + b.e)
FAdd(a, b) == IF a.m = Zero THEN b ELSE IF b.m = Zero THEN a
              ELSE IF a.e >= b.e THEN (IF a.e - b.e > 34 THEN a ELSE FNorm(Add(a.m, Shift10(b.m, b.e - a.e)), a.e))
              ELSE (IF b.e - a.e > 34 THEN b ELSE FNorm(Add(b.m, Shift10(a.m, a.e - b.e)), b.e))
FNeg(a) == [m |-> Neg(a.m), e |-> a.e]
FSub(a, b) == FAdd(a, FNeg(b))
FAbs(a) == [m |-> Abs(a.m), e |-> a.e]
FMulInt(a, n) == IF n = 0 THEN FZero ELSE FNorm(MulInt(a.m, n), a.e)            \* |n| <= 2*10^5
FDivInt(a, n) == IF a.m = Zero THEN FZero ELSE FNorm(DivInt(MulInt(a.m, 10000), n), a.e - 4)      \* 0 < n <= 2*10^5
FLeq(a, b) == ~IsNeg(FSub(b, a).m)
FSum3(a, b, c) == FAdd(FAdd(a, b), c)
FNear(a, b, tol) == FLeq(FAbs(FSub(a, b)), tol)
====
