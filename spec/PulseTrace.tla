------------------------------ MODULE PulseTrace ------------------------------
(* What a queue fed by the pulse timer holds: 1, 2, 3, ..., no more of them than *)
(* the timer's rate allows.                                                      *)
EXTENDS Integers, Sequences, TLC, Json, Data
\* Traces: [got: sequence of pulse numbers, most]
VARIABLES tr, k
TInit == tr \in 1..Len(Traces) /\ k = 0
TNext == k < Len(Traces[tr].got) /\ k < Traces[tr].most /\ Traces[tr].got[k + 1] = k + 1 /\ k' = k + 1 /\ UNCHANGED tr
TView == <<tr, k>>
TSane == k >= 0
Report == k = Len(Traces[tr].got) => PrintT("@@" \o ToJson(tr))
=============================================================================
