---- MODULE Eta ----
(* The eta functions as a machine.
     eta_m(Z) = sum_j Z^j / ((2j)!! (2j+2m-1)!!),   eta_0 = cosh sqrt Z,   eta_1 = sinh(sqrt Z)/sqrt Z.
   "series" adds one term to every function per step; for arguments beyond the disk |Z| < Disk the machine starts the
   series for eta_0 and eta_1 at Z / 4^k and then doubles the angle k times: eta_0(4z) = 2 eta_0(z)^2 - 1,
   eta_1(4z) = eta_0(z) eta_1(z).
   Checked on its own for the arguments Args: both ways give the same values, the identity
   eta_0^2 - Z eta_1^2 = 1, the recurrence eta_(m-1) = Z eta_(m+1) + (2m-1) eta_m, and the derivative
   d eta_m / dZ = eta_(m+1) / 2 term by term. *)
EXTENDS Flo, TLC
CONSTANTS N,        \* functions 0..N-1
          Args      \* for the model: tenths of arguments
VARIABLES Z, ph, z, k, j, t, s
evars == <<Z, ph, z, k, j, t, s>>

Disk == FInt(100)
InDisk(x) == ~FLeq(Disk, FAbs(x))
RECURSIVE InvOdd(_)
InvOdd(m) == IF m = 0 THEN FOne ELSE FDivInt(InvOdd(m - 1), 2 * m - 1)     \* 1 / (2m-1)!!
InvOdds == [m \in 1..N |-> InvOdd(m - 1)]                                     \* function m-1
RECURSIVE Halvings(_, _)
Halvings(x, n) == IF FLeq(FAbs(x), FOne) THEN n ELSE Halvings(FDivInt(x, 4), n + 1)
RECURSIVE Quarter(_, _)
Quarter(x, n) == IF n = 0 THEN x ELSE Quarter(FDivInt(x, 4), n - 1)

(* start for the argument x by the series alone (n = 0) or after n quarterings *)
Start(x, n) == /\ Z = x /\ k = n /\ z = Quarter(x, n) /\ ph = "series" /\ j = 0
               /\ t = (IF n = 0 THEN InvOdds ELSE SubSeq(InvOdds, 1, 2)) /\ s = t
Terms == IF FLeq(FAbs(z), FOne) THEN 14 ELSE IF FLeq(FAbs(z), FInt(10)) THEN 24 ELSE 48
Series == /\ ph = "series" /\ j < Terms
          /\ t' = [m \in 1..Len(t) |-> FDivInt(FMul(t[m], z), (2*j + 2) * (2*j + 2*m - 1))]
          /\ s' = [m \in 1..Len(t) |-> FAdd(s[m], t'[m])]
          /\ j' = j + 1 /\ UNCHANGED <<Z, ph, z, k>>
Summed == /\ ph = "series" /\ j = Terms /\ ph' = (IF k = 0 THEN "done" ELSE "double") /\ UNCHANGED <<Z, z, k, j, t, s>>
Double == /\ ph = "double"
          /\ s' = <<FSub(FMulInt(FMul(s[1], s[1]), 2), FOne), FMul(s[1], s[2])>>
          /\ z' = FMulInt(z, 4) /\ k' = k - 1
          /\ ph' = (IF k = 1 THEN "done" ELSE "double")
          /\ UNCHANGED <<Z, j, t>>
ENext == Series \/ Summed \/ Double

(* ---------------------------------------------------------------- the relations *)
Small == FTen(-26)
Mag(m) == FAdd(FAbs(s[m]), IF m < Len(s) THEN FAbs(FMul(Z, s[m+1])) ELSE FZero)
Identity == ph = "done" => FNear(FMul(s[1], s[1]), FAdd(FOne, FMul(Z, FMul(s[2], s[2]))),
                                 FMul(Small, FSum3(FOne, FMul(s[1], s[1]), FAbs(FMul(Z, FMul(s[2], s[2]))))))
Recurrence == ph = "done" => \A m \in 2..(Len(s) - 1) :
                LET a == FMul(Z, s[m+1])  b == FMulInt(s[m], 2 * m - 3)
                IN FNear(s[m-1], FAdd(a, b), FMul(Small, FSum3(FAbs(a), FAbs(b), FInt(3))))
Derivative == [][ph = "series" /\ j' = j + 1 =>      \* the term j of eta_m: j a_(m,j) = a_(m+1,j-1) / 2
                   \A m \in 1..(Len(t) - 1) : LET u == FMul(t[m+1], z)
                     IN FNear(FMulInt(t'[m], 2 * (j + 1)), u, FMul(FTen(-29), FAbs(u)))]_evars

(* the model: every argument once by the series alone and once by doubling; the results are kept and compared *)
VARIABLES first
Arg(n) == FDivInt(FInt(n), 10)
Init == \E n \in 1..Len(Args) : Start(Arg(Args[n]), 0) /\ first = <<>>
Again == /\ ph = "done" /\ first = <<>> /\ first' = s
         /\ LET n == 2 + Halvings(Z, 0) IN
            /\ k' = n /\ z' = Quarter(Z, n)
         /\ Z' = Z /\ ph' = "series" /\ j' = 0 /\ t' = SubSeq(InvOdds, 1, 2) /\ s' = t'
Next == (ENext /\ UNCHANGED first) \/ Again
Spec == Init /\ [][Next]_<<evars, first>>
Agree == ph = "done" /\ first # <<>> =>
           \A m \in 1..2 : FNear(s[m], first[m], FMul(FTen(-22), FAdd(FInt(1), FAbs(s[m]))))
====
