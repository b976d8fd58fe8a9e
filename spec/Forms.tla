---- MODULE Forms ----
(* Equivalent formulations of an eigenvalue problem.  Every generator acts on problems and on energies; a form is a
   word of generators.  Discrete instance, checked exhaustively: -y(k+1) + 2 y(k) - y(k-1) + V(k) y(k) = E y(k) on
   1..N with y(0) = l y(1), y(N+1) = r y(N).  Its eigenvalues below E = e/2 (e odd, never an eigenvalue) are the sign
   changes of the determinants of the leading minors.  For every word the number of eigenvalues below the image of an
   energy is the number below the energy: index and eigenvalue move together, the index stays.
   The words are the test plan of checks/C23.py. *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS N, MaxLen
VARIABLES V, l, r, off, word
vars == <<V, l, r, off, word>>

Values == {0, 1, 5}
Ends == {0, 1}
Init == V \in [1..N -> Values] /\ l \in Ends /\ r \in Ends /\ off = 0 /\ word = <<>>

Gens == {"shift", "mirror", "move", "stretch", "scale", "split"}
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Apply(g) ==
  /\ Len(word) < MaxLen /\ word' = Append(word, g)
  /\ CASE g = "shift" -> V' = [k \in 1..N |-> V[k] + 3] /\ off' = off + 3 /\ UNCHANGED <<l, r>>
       [] g = "mirror" -> V' = Rev(V) /\ l' = r /\ r' = l /\ UNCHANGED off
       [] OTHER -> UNCHANGED <<V, l, r, off>>      \* the same problem in other units, at another place, or written down differently
Next == \E g \in Gens : Apply(g)
Spec == Init /\ [][Next]_vars

(* 2 (A - e/2): diagonal 2 (2 + V) - e, minus the boundary conditions; off-diagonal -2 *)
Diag(v, a, b, e, k) == 2 * (2 + v[k]) - e - (IF k = 1 THEN 2 * a ELSE 0) - (IF k = N THEN 2 * b ELSE 0)
RECURSIVE Minor(_, _, _, _, _)
Minor(v, a, b, e, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN Diag(v, a, b, e, 1)
                        ELSE Diag(v, a, b, e, k) * Minor(v, a, b, e, k - 1) - 4 * Minor(v, a, b, e, k - 2)
Below(v, a, b, e) == Cardinality({k \in 1..N : Minor(v, a, b, e, k) * Minor(v, a, b, e, k - 1) < 0})
Base == [k \in 1..N |-> V[k] - off]
(* undo the mirrors: the number of eigenvalues below does not depend on the direction *)
Energies == {2 * k + 1 : k \in -1..9}
SameIndex == \A e \in Energies : /\ Below(V, l, r, e + 2 * off) = Below(Base, l, r, e)
                                 /\ Below(V, l, r, e + 2 * off) = Below(Rev(Base), r, l, e)
First == \A k \in 1..N : V[k] - off = 0 /\ l = 0 /\ r = 0
Emit == First => PrintT(<<"TRACE", ToJson(word)>>)
====
