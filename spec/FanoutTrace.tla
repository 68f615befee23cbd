----------------------------- MODULE FanoutTrace ----------------------------
(* Recorded runs of concurrent senders: what every forward's receiver took     *)
(* must be a behaviour of Fanout.  Which sends were refused, and when, is       *)
(* inferred; their number must be the one counted.                             *)
EXTENDS Integers, Sequences, TLC, Json, Data   \* Traces: [sends: sender -> number, bound: may refuse, fwds: forward -> taken, dropped]
VARIABLES tr, f, i, pos, miss
Tr == Traces[tr]
Fw == Tr.fwds
Zero == [s \in DOMAIN Tr.sends |-> 0]
TInit == tr \in 1..Len(Traces) /\ f = 1 /\ i = 1 /\ pos = Zero /\ miss = 0
RECURSIVE Left(_, _)
Left(p, s) == IF s = 0 THEN 0 ELSE Tr.sends[s] - p[s] + Left(p, s - 1)
Taken == /\ f <= Len(Fw) /\ i <= Len(Fw[f])
         /\ LET e == Fw[f][i] IN
            /\ e[1] \in DOMAIN Tr.sends /\ e[2] > pos[e[1]] /\ e[2] <= Tr.sends[e[1]]
            /\ Tr.bound \/ e[2] = pos[e[1]] + 1
            /\ miss' = miss + e[2] - pos[e[1]] - 1
            /\ pos' = [pos EXCEPT ![e[1]] = e[2]]
         /\ i' = i + 1 /\ UNCHANGED <<tr, f>>
NextFwd == /\ f <= Len(Fw) /\ i = Len(Fw[f]) + 1
           /\ miss' = miss + Left(pos, Len(Tr.sends))
           /\ f' = f + 1 /\ i' = 1 /\ pos' = Zero /\ UNCHANGED tr
TNext == Taken \/ NextFwd
TView == <<tr, f, i, miss>>
TSane == miss >= 0
Report == (f = Len(Fw) + 1 /\ miss = Tr.dropped) => PrintT("@@" \o ToJson(tr))
=============================================================================
