---- MODULE FixHi ----
(* GENERATED by tools/genfix.py (F=8): fixed-point reals, 32 decimals.
   A number is a tuple of base-10^4 limbs, little endian; limbs 1..F are the fraction,
   limb 9 the integer part and limb 10 the signed top limb. *)
EXTENDS Integers, Sequences, SequencesExt
B == 10000
FracLimbs == 8
Decimals == 32
Norm(c1, c2, c3, c4, c5, c6, c7, c8, c9, c10) ==
  LET d2 == c2 + c1 \div B
      d3 == c3 + d2 \div B
      d4 == c4 + d3 \div B
      d5 == c5 + d4 \div B
      d6 == c6 + d5 \div B
      d7 == c7 + d6 \div B
      d8 == c8 + d7 \div B
      d9 == c9 + d8 \div B
      d10 == c10 + d9 \div B
  IN <<c1 % B, d2 % B, d3 % B, d4 % B, d5 % B, d6 % B, d7 % B, d8 % B, d9 % B, d10>>
Zero == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Int2Fix(n) == <<0, 0, 0, 0, 0, 0, 0, 0, n % B, n \div B>>
One == Int2Fix(1)
Ulp(n) == Norm(n, 0, 0, 0, 0, 0, 0, 0, 0, 0)  \* n * 10^-Decimals
Add(x, y) == Norm(x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4], x[5]+y[5], x[6]+y[6], x[7]+y[7], x[8]+y[8], x[9]+y[9], x[10]+y[10])
Sub(x, y) == Norm(x[1]-y[1], x[2]-y[2], x[3]-y[3], x[4]-y[4], x[5]-y[5], x[6]-y[6], x[7]-y[7], x[8]-y[8], x[9]-y[9], x[10]-y[10])
Neg(x) == Norm(-x[1], -x[2], -x[3], -x[4], -x[5], -x[6], -x[7], -x[8], -x[9], -x[10])
MulInt(x, n) == Norm(x[1]*n, x[2]*n, x[3]*n, x[4]*n, x[5]*n, x[6]*n, x[7]*n, x[8]*n, x[9]*n, x[10]*n)   \* |n| <= 2*10^5
DivInt(x, n) ==   \* 0 < n <= 2*10^5, floor
  LET q10 == x[10] \div n  r10 == x[10] % n
      t9 == r10*B + x[9]  q9 == t9 \div n  r9 == t9 % n
      t8 == r9*B + x[8]  q8 == t8 \div n  r8 == t8 % n
      t7 == r8*B + x[7]  q7 == t7 \div n  r7 == t7 % n
      t6 == r7*B + x[6]  q6 == t6 \div n  r6 == t6 % n
      t5 == r6*B + x[5]  q5 == t5 \div n  r5 == t5 % n
      t4 == r5*B + x[4]  q4 == t4 \div n  r4 == t4 % n
      t3 == r4*B + x[3]  q3 == t3 \div n  r3 == t3 % n
      t2 == r3*B + x[2]  q2 == t2 \div n  r2 == t2 % n
      t1 == r2*B + x[1]  q1 == t1 \div n  r1 == t1 % n
  IN <<q1, q2, q3, q4, q5, q6, q7, q8, q9, q10>>
(* truncated product, error below 2 ulp *)
Mul(x, y) ==
  LET a1 == x[1] a2 == x[2] a3 == x[3] a4 == x[4] a5 == x[5] a6 == x[6] a7 == x[7] a8 == x[8] a9 == x[9] a10 == x[10]
      b1 == y[1] b2 == y[2] b3 == y[3] b4 == y[4] b5 == y[5] b6 == y[6] b7 == y[7] b8 == y[8] b9 == y[9] b10 == y[10]
      kk == a1*b8+a2*b7+a3*b6+a4*b5+a5*b4+a6*b3+a7*b2+a8*b1 + ((a1*b7+a2*b6+a3*b5+a4*b4+a5*b3+a6*b2+a7*b1) \div B)
  IN Norm(a1*b9+a2*b8+a3*b7+a4*b6+a5*b5+a6*b4+a7*b3+a8*b2+a9*b1 + kk \div B,
          a1*b10+a2*b9+a3*b8+a4*b7+a5*b6+a6*b5+a7*b4+a8*b3+a9*b2+a10*b1,
          a2*b10+a3*b9+a4*b8+a5*b7+a6*b6+a7*b5+a8*b4+a9*b3+a10*b2,
          a3*b10+a4*b9+a5*b8+a6*b7+a7*b6+a8*b5+a9*b4+a10*b3,
          a4*b10+a5*b9+a6*b8+a7*b7+a8*b6+a9*b5+a10*b4,
          a5*b10+a6*b9+a7*b8+a8*b7+a9*b6+a10*b5,
          a6*b10+a7*b9+a8*b8+a9*b7+a10*b6,
          a7*b10+a8*b9+a9*b8+a10*b7,
          a8*b10+a9*b9+a10*b8,
          a9*b10+a10*b9 + B*(a10*b10))
MulAdd(z, x, y) ==
  LET a1 == x[1] a2 == x[2] a3 == x[3] a4 == x[4] a5 == x[5] a6 == x[6] a7 == x[7] a8 == x[8] a9 == x[9] a10 == x[10]
      b1 == y[1] b2 == y[2] b3 == y[3] b4 == y[4] b5 == y[5] b6 == y[6] b7 == y[7] b8 == y[8] b9 == y[9] b10 == y[10]
      kk == a1*b8+a2*b7+a3*b6+a4*b5+a5*b4+a6*b3+a7*b2+a8*b1 + ((a1*b7+a2*b6+a3*b5+a4*b4+a5*b3+a6*b2+a7*b1) \div B)
  IN Norm(z[1] + a1*b9+a2*b8+a3*b7+a4*b6+a5*b5+a6*b4+a7*b3+a8*b2+a9*b1 + kk \div B,
          z[2] + a1*b10+a2*b9+a3*b8+a4*b7+a5*b6+a6*b5+a7*b4+a8*b3+a9*b2+a10*b1,
          z[3] + a2*b10+a3*b9+a4*b8+a5*b7+a6*b6+a7*b5+a8*b4+a9*b3+a10*b2,
          z[4] + a3*b10+a4*b9+a5*b8+a6*b7+a7*b6+a8*b5+a9*b4+a10*b3,
          z[5] + a4*b10+a5*b9+a6*b8+a7*b7+a8*b6+a9*b5+a10*b4,
          z[6] + a5*b10+a6*b9+a7*b8+a8*b7+a9*b6+a10*b5,
          z[7] + a6*b10+a7*b9+a8*b8+a9*b7+a10*b6,
          z[8] + a7*b10+a8*b9+a9*b8+a10*b7,
          z[9] + a8*b10+a9*b9+a10*b8,
          z[10] + a9*b10+a10*b9 + B*(a10*b10))
IsNeg(x) == x[10] < 0
IsZero(x) == x = Zero
Sgn(x) == IF x[10] < 0 THEN -1 ELSE IF x = Zero THEN 0 ELSE 1
Abs(x) == IF IsNeg(x) THEN Neg(x) ELSE x
Leq(x, y) == ~IsNeg(Sub(y, x))
Less(x, y) == IsNeg(Sub(x, y))
Max2(x, y) == IF Less(x, y) THEN y ELSE x
Min2(x, y) == IF Less(x, y) THEN x ELSE y
MaxAbs(x, y) == Max2(Abs(x), Abs(y))
Near(x, y, eps) == Leq(Abs(Sub(x, y)), eps)
Half(x) == DivInt(x, 2)
Sqr(x) == Mul(x, x)
(* multiply / divide by powers of ten *)
Up10(x, d) == CASE d = 0 -> x [] d = 1 -> MulInt(x, 10) [] d = 2 -> MulInt(x, 100) [] d = 3 -> MulInt(x, 1000)
Down10(x, d) == CASE d = 0 -> x [] d = 1 -> DivInt(x, 10) [] d = 2 -> DivInt(x, 100) [] d = 3 -> DivInt(x, 1000)
(* shift by whole limbs *)
UpB(x) == IF x[10] > 9999 \/ x[10] < -9999 THEN <<0, 0, 0, 0, 0, 0, 0, 0, 0, IF x[10] > 0 THEN 99999999 ELSE -99999999>>   \* saturates
          ELSE <<0, x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9] + B*x[10]>>
DownB(x) == <<x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10] % B, x[10] \div B>>
RECURSIVE Shift10(_, _)
Shift10(x, d) == CASE d >= 4 -> IF d > 4*FracLimbs + 8 THEN (IF IsZero(x) THEN Zero ELSE IF IsNeg(x) THEN Int2Fix(-99999999) ELSE Int2Fix(99999999)) ELSE Shift10(UpB(x), d-4)
                  [] d \in 1..3 -> Up10(x, d)
                  [] d = 0 -> x
                  [] d \in -3..-1 -> Down10(x, -d)
                  [] d <= -4 -> IF d < -(4*FracLimbs + 12) THEN (IF IsNeg(x) THEN Ulp(-1) ELSE Zero) ELSE Shift10(DownB(x), d+4)
(* decimal exponent e with |x| < 10^e and |x| >= 10^(e-1), -Decimals when zero; valid for |x| < 10^8 *)
Dig(n) == CASE n >= 1000 -> 4 [] n >= 100 -> 3 [] n >= 10 -> 2 [] n >= 1 -> 1 [] OTHER -> 0
Expo(x) == LET y == Abs(x) IN
  CASE y[10] > 0 -> 4 + Dig(y[10])
    [] y[10] = 0 /\ y[9] > 0 -> 0 + Dig(y[9])
    [] y[10] = 0 /\ y[8] > 0 /\ y[9] = 0 -> -4 + Dig(y[8])
    [] y[10] = 0 /\ y[7] > 0 /\ y[8] = 0 /\ y[9] = 0 -> -8 + Dig(y[7])
    [] y[10] = 0 /\ y[6] > 0 /\ y[7] = 0 /\ y[8] = 0 /\ y[9] = 0 -> -12 + Dig(y[6])
    [] y[10] = 0 /\ y[5] > 0 /\ y[6] = 0 /\ y[7] = 0 /\ y[8] = 0 /\ y[9] = 0 -> -16 + Dig(y[5])
    [] y[10] = 0 /\ y[4] > 0 /\ y[5] = 0 /\ y[6] = 0 /\ y[7] = 0 /\ y[8] = 0 /\ y[9] = 0 -> -20 + Dig(y[4])
    [] y[10] = 0 /\ y[3] > 0 /\ y[4] = 0 /\ y[5] = 0 /\ y[6] = 0 /\ y[7] = 0 /\ y[8] = 0 /\ y[9] = 0 -> -24 + Dig(y[3])
    [] y[10] = 0 /\ y[2] > 0 /\ y[3] = 0 /\ y[4] = 0 /\ y[5] = 0 /\ y[6] = 0 /\ y[7] = 0 /\ y[8] = 0 /\ y[9] = 0 -> -28 + Dig(y[2])
    [] y[10] = 0 /\ y[1] > 0 /\ y[2] = 0 /\ y[3] = 0 /\ y[4] = 0 /\ y[5] = 0 /\ y[6] = 0 /\ y[7] = 0 /\ y[8] = 0 /\ y[9] = 0 -> -32 + Dig(y[1])
    [] OTHER -> -32
SumSeq(s) == FoldLeft(LAMBDA a, b: Add(a, b), Zero, s)
(* Horner evaluation of a polynomial with coefficient sequence c (constant term first) *)
Horner(c, t) == FoldLeft(LAMBDA s, k: Add(Mul(s, t), c[Len(c) + 1 - k]), Zero, [k \in 1..Len(c) |-> k])
====
