---- MODULE Session ----
(* Life cycle of a problem object: it is constructed once (sampling the potential), afterwards it is a constant.  A request is
   either valid, and answered by a function of the request alone, or invalid, and rejected without any effect.
   Eigenfunctions are obtained from the object, live next to it, are evaluated (valid), evaluated on unsorted points
   (half range: invalid) and dropped.

   The implementation is modelled with its hidden parts: the samples taken so far and a memory the code could keep between
   requests (cache).  Design: no request after construction touches them; TLC checks that every answer is Fun(request),
   for every history, and prints the histories, which are replayed on the real classes (checks C03, C10, C21). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxLive
Queries == {"values", "pairs", "window", "propagate", "matching", "function", "error", "minimum"}
Invalid == {"outside", "negative", "reversed", "asymmetric"}
VARIABLES phase, samples, live, answers, hist
vars == <<phase, samples, live, answers, hist>>

Fun(q) == <<"answer", q>>
Init == phase = "none" /\ samples = 0 /\ live = 0 /\ answers = <<>> /\ hist = <<>>
Construct == /\ phase = "none"
             /\ phase' = "ready" /\ samples' = 1
             /\ UNCHANGED <<live, answers, hist>>
Room == phase = "ready" /\ Len(hist) < MaxLen
Do(l, a) == /\ hist' = Append(hist, l)
            /\ answers' = Append(answers, a)
            /\ UNCHANGED <<phase, samples>>
Query == Room /\ \E q \in Queries \ {"pairs", "function"} : Do(q, Fun(q)) /\ UNCHANGED live
Obtain == Room /\ live < MaxLive /\ \E q \in {"pairs", "function"} : Do(q, Fun(q)) /\ live' = live + 1
Evaluate == Room /\ live > 0 /\ \E q \in {"evaluate", "evaluate array"} : Do(q, Fun(q)) /\ UNCHANGED live
Drop == Room /\ live > 0 /\ Do("drop", <<"none">>) /\ live' = live - 1
Reject == Room /\ \E q \in Invalid \cup (IF live > 0 THEN {"unsorted"} ELSE {}) : Do(q, <<"rejected">>) /\ UNCHANGED live
Next == Construct \/ Query \/ Obtain \/ Evaluate \/ Drop \/ Reject
Spec == Init /\ [][Next]_vars

Pure == \A i, j \in DOMAIN hist : hist[i] = hist[j] => answers[i] = answers[j]
SampledOnce == samples = (IF phase = "none" THEN 0 ELSE 1)
Rejected == \A i \in DOMAIN hist : (hist[i] \in Invalid \cup {"unsorted"}) <=> answers[i] = <<"rejected">>
Emit == (Len(hist) = MaxLen) => PrintT(<<"TRACE", ToJson(hist)>>)
====
