---------------------------- MODULE FilterTrace -----------------------------
(* Trace validation for FilterLoop: each upstream's sends and what each        *)
(* forward received are known; the order in the filter's queue is inferred.    *)
EXTENDS FilterLoop, Data   \* Data: Traces, a sequence of [cfg, ups, outs]
VARIABLES tr, pos
Ups == Traces[tr].ups
Outs == Traces[tr].outs
TInit == /\ tr \in 1..Len(Traces) /\ Init /\ cfg = Traces[tr].cfg
         /\ pos = [u \in 1..Traces[tr].cfg.nu |-> 1]
Item(u) == Ups[u][pos[u]]
TSend(u) == /\ queue = <<>> /\ pos[u] <= Len(Ups[u])
            /\ pos' = [pos EXCEPT ![u] = @ + 1]
            /\ queue' = <<Item(u)>>
            /\ ended' = IF Item(u).t = "end" THEN ended \cup {u} ELSE ended
            /\ UNCHANGED <<cfg, nev, ends, phase, holding, out, sent, produced, log>>
Pfx(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
TConsume == Consume /\ UNCHANGED pos /\ \A f \in Fwd : Pfx(out'[f], Outs[f])
TNext == UNCHANGED tr /\ (TConsume \/ \E u \in Up : TSend(u))
TView == <<tr, pos, queue, ends, phase, holding, [f \in Fwd |-> Len(out[f])]>>
Accepted == phase = "stopped" /\ (\A f \in Fwd : out[f] = Outs[f]) /\ \A u \in Up : pos[u] > Len(Ups[u])
Report == Accepted => PrintT("@@" \o ToJson(tr))
TSane == EndLastOnce /\ AllProduced
=============================================================================
