---------------------------- MODULE FileTailTrace ----------------------------
(* Recorded runs of the file source, path by path: what was done to the path,  *)
(* in order, and the lines handed out between one settle and the next.  When    *)
(* the source looked and read is inferred; each call for a line takes effect at *)
(* one moment, looking for the path and opening it at two.                      *)
EXTENDS FileTailOps, TLC, Json, Data   \* Traces: [init: pieces at the start or -1, steps, segs]
VARIABLES tr, i, j, k,   \* steps done, segment, lines of it matched
          body, at, old, w, gone, seen
vars == <<tr, i, j, k, body, at, old, w, gone, seen>>
Tr == Traces[tr]
TInit == /\ tr \in 1..Len(Traces) /\ i = 0 /\ j = 1 /\ k = 0 /\ old = 0 /\ gone = FALSE /\ seen = FALSE /\ w = NoW
         /\ body = IF Tr.init < 0 THEN <<>> ELSE <<[n \in 1..Tr.init |-> [id |-> 0, k |-> "end"]]>>
         /\ at = Len(body)
Step == Tr.steps[i + 1]
Add(f) == body' = [body EXCEPT ![f] = Append(@, [id |-> Step.n, k |-> Step.k])]
Done == i' = i + 1 /\ UNCHANGED <<tr, w, gone, seen>>
Settled == LET r == Round(w, gone, at, body) IN ~seen /\ r.x = w /\ r.g = gone /\ r.out = <<>>
Writer == /\ i < Len(Tr.steps)
          /\ \/ Step.a = "append" /\ Add(at) /\ Done /\ UNCHANGED <<j, k, at, old>>
             \/ Step.a = "old" /\ Add(old) /\ Done /\ UNCHANGED <<j, k, at, old>>
             \/ Step.a = "trunc" /\ body' = [body EXCEPT ![at] = SubSeq(@, 1, Step.n)] /\ Done /\ UNCHANGED <<j, k, at, old>>
             \/ Step.a \in {"away", "del"} /\ old' = at /\ at' = 0 /\ Done /\ UNCHANGED <<j, k, body>>
             \/ Step.a = "create" /\ body' = Append(body, <<>>) /\ at' = Len(body) + 1 /\ Done /\ UNCHANGED <<j, k, old>>
             \/ Step.a = "replace" /\ body' = Append(body, <<>>) /\ old' = at /\ at' = Len(body) + 1 /\ Done /\ UNCHANGED <<j, k>>
             \/ Step.a = "settle" /\ k = Len(Tr.segs[j]) /\ Settled /\ j' = j + 1 /\ k' = 0 /\ Done /\ UNCHANGED <<body, at, old>>
Look == ~w.alive /\ ~seen /\ at # 0 /\ seen' = TRUE /\ UNCHANGED <<tr, i, j, k, body, at, old, w, gone>>
OpenIt == /\ seen /\ seen' = FALSE /\ gone' = FALSE
          /\ w' = IF at = 0 THEN [NoW EXCEPT !.alive = TRUE] ELSE Found(w, gone, at, body)
          /\ UNCHANGED <<tr, i, j, k, body, at, old>>
\* appends to the file there commute with calls, but for the first after a truncation
Read == /\ w.alive
        /\ i < Len(Tr.steps) => (Step.a # "append" \/ (w.rd # 0 /\ w.prev > Len(body[w.rd])))
        /\ LET r == Call(w, at, body) IN
           /\ r.out # <<>> => (k < Len(Tr.segs[j]) /\ r.out[1] = Tr.segs[j][k + 1])
           /\ k' = k + Len(r.out)
           /\ w' = IF r.x.rd = 0 THEN NoW ELSE r.x
           /\ gone' = (gone \/ r.x.rd = 0)
        /\ UNCHANGED <<tr, i, j, body, at, old, seen>>
TNext == j <= Len(Tr.segs) /\ (Writer \/ Look \/ OpenIt \/ Read)
TView == vars
TSane == k >= 0
Report == i = Len(Tr.steps) => PrintT("@@" \o ToJson(tr))
=============================================================================
