"""Generates spec/Fix.tla (F=4) and spec/FixHi.tla (F=8): fixed-point reals in pure TLA+.

A number is a tuple of F fraction limbs (base 10^4, little endian), one integer limb and a
signed top limb; value = sum x[i] * 10^(4*(i-1-F)).  All arithmetic is unrolled because TLC
evaluates unrolled LET chains ~40x faster than RECURSIVE operators.
"""
import sys, os

def gen(name, F):
    L = F + 2
    R = range(1, L + 1)
    o = []
    w = o.append
    w(f"---- MODULE {name} ----")
    w(f"(* GENERATED by tools/genfix.py (F={F}): fixed-point reals, {4*F} decimals.")
    w("   A number is a tuple of base-10^4 limbs, little endian; limbs 1..F are the fraction,")
    w(f"   limb {F+1} the integer part and limb {L} the signed top limb. *)")
    w("EXTENDS Integers, Sequences, SequencesExt")
    w("B == 10000")
    w(f"FracLimbs == {F}")
    w(f"Decimals == {4*F}")
    args = ", ".join(f"c{i}" for i in R)
    w(f"Norm({args}) ==")
    prev = "c1"
    w("  LET " + "\n      ".join([f"d{i} == c{i} + {'c1' if i == 2 else f'd{i-1}'} \\div B" for i in range(2, L+1)]))
    w("  IN <<" + ", ".join(["c1 % B"] + [f"d{i} % B" for i in range(2, L)] + [f"d{L}"]) + ">>")
    w("Zero == <<" + ", ".join("0" for _ in R) + ">>")
    w("Int2Fix(n) == <<" + ", ".join(["0"]*F) + f", n % B, n \\div B>>")
    w("One == Int2Fix(1)")
    w("Ulp(n) == Norm(" + ", ".join(["n"] + ["0"]*(L-1)) + ")  \\* n * 10^-Decimals")
    for op, nm in (("+", "Add"), ("-", "Sub")):
        w(f"{nm}(x, y) == Norm(" + ", ".join(f"x[{i}]{op}y[{i}]" for i in R) + ")")
    w("Neg(x) == Norm(" + ", ".join(f"-x[{i}]" for i in R) + ")")
    w("MulInt(x, n) == Norm(" + ", ".join(f"x[{i}]*n" for i in R) + ")   \\* |n| <= 2*10^5")
    # division by a small positive integer, top limb first (floor)
    w("DivInt(x, n) ==   \\* 0 < n <= 2*10^5, floor")
    w(f"  LET q{L} == x[{L}] \\div n  r{L} == x[{L}] % n")
    for i in range(L-1, 0, -1):
        w(f"      t{i} == r{i+1}*B + x[{i}]  q{i} == t{i} \\div n  r{i} == t{i} % n")
    w("  IN <<" + ", ".join(f"q{i}" for i in R) + ">>")
    # multiplication
    def col(s):  # sum of products i+j = s
        return "+".join(f"a{i}*b{s-i}" for i in R if 1 <= s-i <= L)
    lets = " ".join(f"a{i} == x[{i}]" for i in R) + "\n      " + " ".join(f"b{i} == y[{i}]" for i in R)
    # guard columns: i+j = F+1 (weight just below ulp) and i+j = F (one below)
    body = []
    for r in R:
        c = col(r + F + 1)
        body.append(c)
    w("(* truncated product, error below 2 ulp *)")
    def product(nm, extra):
        w(f"{nm} ==")
        w("  LET " + lets)
        w(f"      kk == {col(F+1)} + (({col(F)}) \\div B)")
        parts = []
        for r in R:
            p = body[r-1]
            if r == 1: p += " + kk \\div B"
            if r == L: p += f" + B*(a{L}*b{L})"
            if extra: p = f"z[{r}] + " + p
            parts.append(p)
        w("  IN Norm(" + ",\n          ".join(parts) + ")")
    product("Mul(x, y)", False)
    product("MulAdd(z, x, y)", True)
    w(f"IsNeg(x) == x[{L}] < 0")
    w(f"IsZero(x) == x = Zero")
    w(f"Sgn(x) == IF x[{L}] < 0 THEN -1 ELSE IF x = Zero THEN 0 ELSE 1")
    w("Abs(x) == IF IsNeg(x) THEN Neg(x) ELSE x")
    w("Leq(x, y) == ~IsNeg(Sub(y, x))")
    w("Less(x, y) == IsNeg(Sub(x, y))")
    w("Max2(x, y) == IF Less(x, y) THEN y ELSE x")
    w("Min2(x, y) == IF Less(x, y) THEN x ELSE y")
    w("MaxAbs(x, y) == Max2(Abs(x), Abs(y))")
    w("Near(x, y, eps) == Leq(Abs(Sub(x, y)), eps)")
    w("Half(x) == DivInt(x, 2)")
    w("Sqr(x) == Mul(x, x)")
    w("(* multiply / divide by powers of ten *)")
    w("Up10(x, d) == CASE d = 0 -> x [] d = 1 -> MulInt(x, 10) [] d = 2 -> MulInt(x, 100) [] d = 3 -> MulInt(x, 1000)")
    w("Down10(x, d) == CASE d = 0 -> x [] d = 1 -> DivInt(x, 10) [] d = 2 -> DivInt(x, 100) [] d = 3 -> DivInt(x, 1000)")
    w("(* shift by whole limbs *)")
    w(f"UpB(x) == IF x[{L}] > 9999 \\/ x[{L}] < -9999 THEN <<" + "0, "*(L-1) + f"IF x[{L}] > 0 THEN 99999999 ELSE -99999999>>   \\* saturates")
    w("          ELSE <<0, " + ", ".join(f"x[{i}]" for i in range(1, L-1)) + f", x[{L-1}] + B*x[{L}]>>")
    w("DownB(x) == <<" + ", ".join(f"x[{i}]" for i in range(2, L)) + f", x[{L}] % B, x[{L}] \\div B>>")
    w("RECURSIVE Shift10(_, _)")
    w("Shift10(x, d) == CASE d >= 4 -> IF d > 4*FracLimbs + 8 THEN Assert10(d) ELSE Shift10(UpB(x), d-4)")
    w("                  [] d \\in 1..3 -> Up10(x, d)")
    w("                  [] d = 0 -> x")
    w("                  [] d \\in -3..-1 -> Down10(x, -d)")
    w("                  [] d <= -4 -> IF d < -(4*FracLimbs + 12) THEN (IF IsNeg(x) THEN Ulp(-1) ELSE Zero) ELSE Shift10(DownB(x), d+4)")
    txt = "\n".join(o).replace("Assert10(d)", "(IF IsZero(x) THEN Zero ELSE IF IsNeg(x) THEN Int2Fix(-99999999) ELSE Int2Fix(99999999))")
    # digits needed to bring |x| into [0.1, 1): leading limb position
    txt += f"""
(* decimal exponent e with |x| < 10^e and |x| >= 10^(e-1), -Decimals when zero; valid for |x| < 10^8 *)
Dig(n) == CASE n >= 1000 -> 4 [] n >= 100 -> 3 [] n >= 10 -> 2 [] n >= 1 -> 1 [] OTHER -> 0
Expo(x) == LET y == Abs(x) IN
  CASE y[{L}] > 0 -> 4 + Dig(y[{L}])
"""
    for i in range(L-1, 0, -1):
        txt += f"    [] y[{L}] = 0 /\\ y[{i}] > 0" + "".join(f" /\\ y[{j}] = 0" for j in range(i+1, L)) + f" -> {4*(i-1-F)} + Dig(y[{i}])\n"
    txt += f"    [] OTHER -> -{4*F}\n"
    txt += """SumSeq(s) == FoldLeft(LAMBDA a, b: Add(a, b), Zero, s)
(* Horner evaluation of a polynomial with coefficient sequence c (constant term first) *)
Horner(c, t) == FoldLeft(LAMBDA s, k: Add(Mul(s, t), c[Len(c) + 1 - k]), Zero, [k \\in 1..Len(c) |-> k])
====
"""
    open(os.path.join(os.path.dirname(__file__), "..", "spec", name + ".tla"), "w").write(txt)

gen("Fix", 4)
gen("FixHi", 8)
