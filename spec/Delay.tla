------------------------------- MODULE Delay -------------------------------
(* The delay filter: timed events pass iff their distance from the present is  *)
(* below the tolerance (at exactly the tolerance either is allowed, so that    *)
(* distance is not used); untimed events always pass.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tols, Dists, MaxEv
VARIABLES tol, out, counts, log
vars == <<tol, out, counts, log>>
Init == tol \in Tols /\ out = <<>> /\ counts = [ta |-> 0, tr |-> 0, la |-> 0, lr |-> 0] /\ log = <<>>
Abs(d) == IF d < 0 THEN 0 - d ELSE d
Accept(d) == Abs(d) < tol
Id == "e" \o ToString(Len(log))
Timed(kind, d) == /\ Abs(d) # tol
                  /\ LET key == IF kind = "tel" THEN (IF Accept(d) THEN "ta" ELSE "tr") ELSE (IF Accept(d) THEN "la" ELSE "lr")
                     IN counts' = [counts EXCEPT ![key] = @ + 1]
                  /\ out' = IF Accept(d) THEN Append(out, Id) ELSE out
                  /\ log' = Append(log, [kind |-> kind, d |-> d, id |-> Id])
Untimed(kind) == /\ out' = Append(out, Id) /\ log' = Append(log, [kind |-> kind, d |-> 0, id |-> Id])
                 /\ UNCHANGED counts
NextSim == /\ Len(log) < MaxEv /\ UNCHANGED tol
           /\ IF RandomElement(1..3) < 3 THEN Timed(RandomElement({"tel", "log"}), RandomElement(Dists \ {tol, 0 - tol}))
              ELSE Untimed(RandomElement({"raw", "flush"}))
Next == /\ Len(log) < MaxEv /\ UNCHANGED tol
        /\ \/ \E d \in Dists, k \in {"tel", "log"} : Timed(k, d)
           \/ \E k \in {"raw", "flush"} : Untimed(k)
Spec == Init /\ [][Next]_vars
Passed == {k \in 1..Len(log) : log[k].kind \in {"raw", "flush"} \/ Abs(log[k].d) < tol}
Exact == /\ {out[j] : j \in 1..Len(out)} = {log[k].id : k \in Passed} /\ Len(out) = Cardinality(Passed)
InOrder == \A j, k \in 1..Len(out) : j < k =>
             (CHOOSE x \in 1..Len(log) : log[x].id = out[j]) < (CHOOSE x \in 1..Len(log) : log[x].id = out[k])
Counted == counts.ta + counts.tr + counts.la + counts.lr = Cardinality({k \in 1..Len(log) : log[k].kind \in {"tel", "log"}})
EmitAll == Len(log) = MaxEv => PrintT("@@" \o ToJson([tol |-> tol, steps |-> log, out |-> out, counts |-> counts]))
=============================================================================
