----------------------------- MODULE SinkTrace -----------------------------
(* Trace validation for SinkLoop: every upstream's sends are known in order,   *)
(* the calls made on the sink are known in order; how the sends were           *)
(* interleaved in the queue is inferred.  A recorded run is accepted iff some  *)
(* interleaving makes the specification produce exactly the recorded calls.    *)
EXTENDS SinkLoop, Data   \* Data: Traces, a sequence of [cfg, ups, calls]
VARIABLES tr, pos

Ups == Traces[tr].ups
TInit == /\ tr \in 1..Len(Traces) /\ Init /\ cfg = Traces[tr].cfg
         /\ pos = [u \in 1..Traces[tr].cfg.nu |-> 1]

(* upstream u's next item becomes the head of an empty queue *)
TSend(u) == /\ queue = <<>> /\ pos[u] <= Len(Ups[u])
            /\ pos' = [pos EXCEPT ![u] = @ + 1]
            /\ queue' = <<Ups[u][pos[u]]>>
            /\ ended' = IF Ups[u][pos[u]].t = "end" THEN ended \cup {u} ELSE ended
            /\ UNCHANGED <<nev, npulse, loop, sent, calls, pflush, log>>
TConsume == Consume /\ UNCHANGED pos /\ IsPrefix(calls', Traces[tr].calls)
TNext == /\ UNCHANGED <<tr, cfg>>
         /\ \/ TConsume
            \/ \E u \in Up : TSend(u)

TView == <<tr, pos, queue, held, stub, last, ends, phase, Len(calls)>>
Accepted == calls = Traces[tr].calls /\ phase = "stopped" /\ \A u \in Up : pos[u] > Len(Ups[u])
Report == Accepted => PrintT("@@" \o ToJson(tr))
(* specification properties, evaluated along the recorded execution *)
TSane == NeverOverfull /\ StopsAfterAll /\ PulseOnce /\ PulseDue
=============================================================================
