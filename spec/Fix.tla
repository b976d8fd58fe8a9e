---- MODULE Fix ----
(* GENERATED by tools/genfix.py (F=4): fixed-point reals, 16 decimals.
   A number is a tuple of base-10^4 limbs, little endian; limbs 1..F are the fraction,
   limb 5 the integer part and limb 6 the signed top limb. *)
EXTENDS Integers, Sequences, SequencesExt
B == 10000
FracLimbs == 4
Decimals == 16
Norm(c1, c2, c3, c4, c5, c6) ==
  LET d2 == c2 + c1 \div B
      d3 == c3 + d2 \div B
      d4 == c4 + d3 \div B
      d5 == c5 + d4 \div B
      d6 == c6 + d5 \div B
  IN <<c1 % B, d2 % B, d3 % B, d4 % B, d5 % B, d6>>
Zero == <<0, 0, 0, 0, 0, 0>>
Int2Fix(n) == <<0, 0, 0, 0, n % B, n \div B>>
One == Int2Fix(1)
Ulp(n) == Norm(n, 0, 0, 0, 0, 0)  \* n * 10^-Decimals
Add(x, y) == Norm(x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4], x[5]+y[5], x[6]+y[6])
Sub(x, y) == Norm(x[1]-y[1], x[2]-y[2], x[3]-y[3], x[4]-y[4], x[5]-y[5], x[6]-y[6])
Neg(x) == Norm(-x[1], -x[2], -x[3], -x[4], -x[5], -x[6])
MulInt(x, n) == Norm(x[1]*n, x[2]*n, x[3]*n, x[4]*n, x[5]*n, x[6]*n)   \* |n| <= 2*10^5
DivInt(x, n) ==   \* 0 < n <= 2*10^5, floor
  LET q6 == x[6] \div n  r6 == x[6] % n
      t5 == r6*B + x[5]  q5 == t5 \div n  r5 == t5 % n
      t4 == r5*B + x[4]  q4 == t4 \div n  r4 == t4 % n
      t3 == r4*B + x[3]  q3 == t3 \div n  r3 == t3 % n
      t2 == r3*B + x[2]  q2 == t2 \div n  r2 == t2 % n
      t1 == r2*B + x[1]  q1 == t1 \div n  r1 == t1 % n
  IN <<q1, q2, q3, q4, q5, q6>>
(* truncated product, error below 2 ulp *)
Mul(x, y) ==
  LET a1 == x[1] a2 == x[2] a3 == x[3] a4 == x[4] a5 == x[5] a6 == x[6]
      b1 == y[1] b2 == y[2] b3 == y[3] b4 == y[4] b5 == y[5] b6 == y[6]
      kk == a1*b4+a2*b3+a3*b2+a4*b1 + ((a1*b3+a2*b2+a3*b1) \div B)
  IN Norm(a1*b5+a2*b4+a3*b3+a4*b2+a5*b1 + kk \div B,
          a1*b6+a2*b5+a3*b4+a4*b3+a5*b2+a6*b1,
          a2*b6+a3*b5+a4*b4+a5*b3+a6*b2,
          a3*b6+a4*b5+a5*b4+a6*b3,
          a4*b6+a5*b5+a6*b4,
          a5*b6+a6*b5 + B*(a6*b6))
MulAdd(z, x, y) ==
  LET a1 == x[1] a2 == x[2] a3 == x[3] a4 == x[4] a5 == x[5] a6 == x[6]
      b1 == y[1] b2 == y[2] b3 == y[3] b4 == y[4] b5 == y[5] b6 == y[6]
      kk == a1*b4+a2*b3+a3*b2+a4*b1 + ((a1*b3+a2*b2+a3*b1) \div B)
  IN Norm(z[1] + a1*b5+a2*b4+a3*b3+a4*b2+a5*b1 + kk \div B,
          z[2] + a1*b6+a2*b5+a3*b4+a4*b3+a5*b2+a6*b1,
          z[3] + a2*b6+a3*b5+a4*b4+a5*b3+a6*b2,
          z[4] + a3*b6+a4*b5+a5*b4+a6*b3,
          z[5] + a4*b6+a5*b5+a6*b4,
          z[6] + a5*b6+a6*b5 + B*(a6*b6))
IsNeg(x) == x[6] < 0
IsZero(x) == x = Zero
Sgn(x) == IF x[6] < 0 THEN -1 ELSE IF x = Zero THEN 0 ELSE 1
Abs(x) == IF IsNeg(x) THEN Neg(x) ELSE x
Leq(x, y) == ~IsNeg(Sub(y, x))
Less(x, y) == IsNeg(Sub(x, y))
Max2(x, y) == IF Less(x, y) THEN y ELSE x
Min2(x, y) == IF Less(x, y) THEN x ELSE y
MaxAbs(x, y) == Max2(Abs(x), Abs(y))
Near(x, y, eps) == Leq(Abs(Sub(x, y)), eps)
Half(x) == DivInt(x, 2)
Sqr(x) == Mul(x, x)
(* multiply / divide by powers of ten *)
Up10(x, d) == CASE d = 0 -> x [] d = 1 -> MulInt(x, 10) [] d = 2 -> MulInt(x, 100) [] d = 3 -> MulInt(x, 1000)
Down10(x, d) == CASE d = 0 -> x [] d = 1 -> DivInt(x, 10) [] d = 2 -> DivInt(x, 100) [] d = 3 -> DivInt(x, 1000)
(* shift by whole limbs *)
UpB(x) == IF x[6] > 9999 \/ x[6] < -9999 THEN <<0, 0, 0, 0, 0, IF x[6] > 0 THEN 99999999 ELSE -99999999>>   \* saturates
          ELSE <<0, x[1], x[2], x[3], x[4], x[5] + B*x[6]>>
DownB(x) == <<x[2], x[3], x[4], x[5], x[6] % B, x[6] \div B>>
RECURSIVE Shift10(_, _)
Shift10(x, d) == CASE d >= 4 -> IF d > 4*FracLimbs + 8 THEN (IF IsZero(x) THEN Zero ELSE IF IsNeg(x) THEN Int2Fix(-99999999) ELSE Int2Fix(99999999)) ELSE Shift10(UpB(x), d-4)
                  [] d \in 1..3 -> Up10(x, d)
                  [] d = 0 -> x
                  [] d \in -3..-1 -> Down10(x, -d)
                  [] d <= -4 -> IF d < -(4*FracLimbs + 12) THEN (IF IsNeg(x) THEN Ulp(-1) ELSE Zero) ELSE Shift10(DownB(x), d+4)
(* decimal exponent e with |x| < 10^e and |x| >= 10^(e-1), -Decimals when zero; valid for |x| < 10^8 *)
Dig(n) == CASE n >= 1000 -> 4 [] n >= 100 -> 3 [] n >= 10 -> 2 [] n >= 1 -> 1 [] OTHER -> 0
Expo(x) == LET y == Abs(x) IN
  CASE y[6] > 0 -> 4 + Dig(y[6])
    [] y[6] = 0 /\ y[5] > 0 -> 0 + Dig(y[5])
    [] y[6] = 0 /\ y[4] > 0 /\ y[5] = 0 -> -4 + Dig(y[4])
    [] y[6] = 0 /\ y[3] > 0 /\ y[4] = 0 /\ y[5] = 0 -> -8 + Dig(y[3])
    [] y[6] = 0 /\ y[2] > 0 /\ y[3] = 0 /\ y[4] = 0 /\ y[5] = 0 -> -12 + Dig(y[2])
    [] y[6] = 0 /\ y[1] > 0 /\ y[2] = 0 /\ y[3] = 0 /\ y[4] = 0 /\ y[5] = 0 -> -16 + Dig(y[1])
    [] OTHER -> -16
SumSeq(s) == FoldLeft(LAMBDA a, b: Add(a, b), Zero, s)
(* Horner evaluation of a polynomial with coefficient sequence c (constant term first) *)
Horner(c, t) == FoldLeft(LAMBDA s, k: Add(Mul(s, t), c[Len(c) + 1 - k]), Zero, [k \in 1..Len(c) |-> k])
====
