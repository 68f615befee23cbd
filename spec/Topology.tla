------------------------------- MODULE Topology -------------------------------
(* Sources, filters and sinks of one process, wired without cycles; queues     *)
(* between them that hold MaxMem batches in memory and hide what is sent beyond*)
(* until a later send or flush publishes it; the pulse timer; and the signal   *)
(* to end: sources stop one after the other, every stage ends when each of its *)
(* upstreams has announced its end.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Sources, Filters, Sinks,   \* Filters: a sequence; each feeds later ones only
          MaxData, MaxMem, MaxPulses,
          Dedupe,                    \* filters pass on a pulse once
          Flusher                    \* at the end somebody keeps publishing what is hidden
VARIABLES fwd, q, stops, st, todo, sig, acc, out, seen, last, idx, orphans
vars == <<fwd, q, stops, st, todo, sig, acc, out, seen, last, idx, orphans>>
F == {Filters[i] : i \in DOMAIN Filters}
Stages == F \cup Sinks
Feeders == Sources \cup F
Timer == "timer"
Index(f) == CHOOSE i \in DOMAIN Filters : Filters[i] = f
Ahead(n) == IF n \in Sources THEN Stages ELSE Sinks \cup {Filters[j] : j \in (Index(n) + 1)..Len(Filters)}
Wirings == {w \in [Feeders -> SUBSET Stages] : \A n \in Feeders : w[n] \subseteq Ahead(n)}
Up(w, x) == {n \in Feeders : x \in w[n]}
Tops(w) == UNION {w[s] : s \in Sources}
\* a queue: batches in memory, events on disk that nothing in memory points at
Empty == [mem |-> <<>>, hid |-> <<>>]
Begin(w) == /\ fwd = w /\ q = [x \in Stages |-> Empty] /\ stops = [x \in Stages |-> 0] /\ st = [n \in Feeders \cup Sinks |-> "on"]
            /\ todo = [n \in Feeders \cup {Timer} |-> <<>>] /\ sig = FALSE /\ acc = [s \in Sources |-> 0] /\ out = [k \in Sinks |-> <<>>]
            /\ seen = [x \in Stages |-> <<>>] /\ last = [x \in Stages |-> 0] /\ idx = 0 /\ orphans = FALSE
Init == \E w \in Wirings : Begin(w)
Put(u, e) == IF u.hid = <<>> THEN IF Len(u.mem) < MaxMem THEN [u EXCEPT !.mem = Append(@, <<e>>)] ELSE [u EXCEPT !.hid = <<e>>]
             ELSE IF Len(u.mem) < MaxMem THEN [mem |-> Append(u.mem, Append(u.hid, e)), hid |-> <<>>] ELSE [u EXCEPT !.hid = Append(@, e)]
Drop(u) == IF Len(Head(u.mem)) > 1 THEN [u EXCEPT !.mem = <<Tail(Head(@))>> \o Tail(@)] ELSE [u EXCEPT !.mem = Tail(@)]
To(S, e) == LET o == SetToSeq(S) IN [i \in DOMAIN o |-> <<o[i], e>>]
Stop == [k |-> "stop"]

Accept(s) == /\ st[s] = "on" /\ todo[s] = <<>> /\ acc[s] < MaxData
             /\ acc' = [acc EXCEPT ![s] = @ + 1]
             /\ todo' = [todo EXCEPT ![s] = To(fwd[s], [k |-> "data", s |-> s, n |-> acc[s] + 1, by |-> <<>>])]
             /\ UNCHANGED <<fwd, q, stops, st, sig, out, seen, last, idx, orphans>>
Pulse == /\ idx < MaxPulses /\ todo[Timer] = <<>> /\ idx' = idx + 1
         /\ todo' = [todo EXCEPT ![Timer] = To(Tops(fwd), [k |-> "pulse", i |-> idx + 1, from |-> Timer])]
         /\ UNCHANGED <<fwd, q, stops, st, sig, acc, out, seen, last, orphans>>
Push(n) == /\ todo[n] # <<>>
           /\ LET t == Head(todo[n]) IN q' = [q EXCEPT ![t[1]] = Put(@, t[2])]
           /\ todo' = [todo EXCEPT ![n] = Tail(@)]
           /\ st' = IF n # Timer /\ st[n] = "ending" /\ Len(todo[n]) = 1 THEN [st EXCEPT ![n] = "off"] ELSE st
           /\ UNCHANGED <<fwd, stops, sig, acc, out, seen, last, idx, orphans>>
Signal == ~sig /\ sig' = TRUE /\ UNCHANGED <<fwd, q, stops, st, todo, acc, out, seen, last, idx, orphans>>
StopSource(s) == /\ sig /\ st[s] = "on" /\ todo[s] = <<>> /\ \A r \in Sources : st[r] # "ending"
                 /\ st' = [st EXCEPT ![s] = IF fwd[s] = {} THEN "off" ELSE "ending"]
                 /\ todo' = [todo EXCEPT ![s] = To(fwd[s], Stop)]
                 /\ UNCHANGED <<fwd, q, stops, sig, acc, out, seen, last, idx, orphans>>
Take(x) == /\ st[x] = "on" /\ (x \in F => todo[x] = <<>>) /\ q[x].mem # <<>>
           /\ LET e == Head(Head(q[x].mem)) IN
              /\ q' = [q EXCEPT ![x] = Drop(@)]
              /\ IF e.k = "stop"
                 THEN /\ stops' = [stops EXCEPT ![x] = @ + 1] /\ UNCHANGED <<out, seen, last>>
                      /\ IF stops[x] + 1 >= Cardinality(Up(fwd, x))
                         THEN IF x \in F THEN /\ st' = [st EXCEPT ![x] = IF fwd[x] = {} THEN "off" ELSE "ending"]
                                              /\ todo' = [todo EXCEPT ![x] = To(fwd[x], Stop)]
                              ELSE st' = [st EXCEPT ![x] = "off"] /\ UNCHANGED todo
                         ELSE UNCHANGED <<st, todo>>
                 ELSE /\ UNCHANGED <<stops, st>>
                      /\ IF e.k = "data" THEN /\ UNCHANGED <<seen, last>>
                                              /\ IF x \in F THEN todo' = [todo EXCEPT ![x] = To(fwd[x], [e EXCEPT !.by = Append(@, x)])] /\ UNCHANGED out
                                                 ELSE out' = [out EXCEPT ![x] = Append(@, e)] /\ UNCHANGED todo
                         ELSE /\ UNCHANGED out /\ seen' = [seen EXCEPT ![x] = Append(@, <<e.from, e.i>>)]
                              /\ last' = [last EXCEPT ![x] = IF e.i > @ THEN e.i ELSE @]
                              /\ IF x \in F /\ (Dedupe => e.i > last[x]) THEN todo' = [todo EXCEPT ![x] = To(fwd[x], [e EXCEPT !.from = x])] ELSE UNCHANGED todo
           /\ UNCHANGED <<fwd, sig, acc, idx, orphans>>
Publish(x) == /\ Flusher /\ sig /\ q[x].hid # <<>> /\ Len(q[x].mem) < MaxMem
              /\ q' = [q EXCEPT ![x] = [mem |-> Append(@.mem, @.hid), hid |-> <<>>]]
              /\ UNCHANGED <<fwd, stops, st, todo, sig, acc, out, seen, last, idx, orphans>>
\* stages nobody feeds are told to end by the process itself
Orphans == /\ sig /\ ~orphans /\ \A s \in Sources : st[s] = "off" /\ orphans' = TRUE
           /\ q' = [x \in Stages |-> IF Up(fwd, x) = {} THEN Put(q[x], Stop) ELSE q[x]]
           /\ UNCHANGED <<fwd, stops, st, todo, sig, acc, out, seen, last, idx>>
Working == \/ \E n \in Feeders \cup {Timer} : Push(n)
           \/ \E s \in Sources : StopSource(s)
           \/ \E x \in Stages : Take(x) \/ Publish(x)
           \/ Orphans
Next == (\E s \in Sources : Accept(s)) \/ Pulse \/ Signal \/ Working
Fair == Init /\ [][Next]_vars /\ \A n \in Feeders \cup {Timer} : WF_vars(Push(n))
        /\ \A s \in Sources : WF_vars(StopSource(s)) /\ \A x \in Stages : WF_vars(Take(x)) /\ WF_vars(Publish(x))
        /\ WF_vars(Orphans)
-----------------------------------------------------------------------------
RECURSIVE Paths(_, _, _)   \* the filters on each path from n to k
Paths(w, n, k) == (IF k \in w[n] THEN {<<>>} ELSE {}) \cup UNION {{<<f>> \o p : p \in Paths(w, f, k)} : f \in F \cap w[n]}
Ended == \A n \in Feeders \cup Sinks : st[n] = "off"
Got(k) == {out[k][i] : i \in DOMAIN out[k]}
OnlyReachable == \A k \in Sinks : \A e \in Got(k) : e.by \in Paths(fwd, e.s, k) /\ e.n <= acc[e.s]
OncePerPath == \A k \in Sinks : Cardinality(Got(k)) = Len(out[k])
AllAtEnd == Ended => \A k \in Sinks : Got(k) = {[k |-> "data", s |-> s, n |-> n, by |-> p] : s \in Sources, n \in 1..MaxData, p \in UNION {Paths(fwd, r, k) : r \in Sources}}
                                                 \cap {e \in [k : {"data"}, s : Sources, n : 1..MaxData, by : UNION {Paths(fwd, r, k) : r \in Sources}] : e.n <= acc[e.s] /\ e.by \in Paths(fwd, e.s, k)}
InOrder == \A k \in Sinks : \A i, j \in DOMAIN out[k] : i < j /\ out[k][i].s = out[k][j].s /\ out[k][i].by = out[k][j].by => out[k][i].n < out[k][j].n
\* pulses: what is new to a stage comes as 1, 2, 3, ...
New(x) == SelectSeq([i \in DOMAIN seen[x] |-> IF \A j \in 1..(i - 1) : seen[x][j][2] # seen[x][i][2] THEN seen[x][i][2] ELSE 0], LAMBDA i : i > 0)
Consecutive == \A x \in Stages : \A i \in DOMAIN New(x) : New(x)[i] = i
OnceEach == Dedupe => \A x \in Stages : \A i, j \in DOMAIN seen[x] : seen[x][i] = seen[x][j] => i = j
OnlyFed == \A x \in Stages : \A i \in DOMAIN seen[x] : LET f == seen[x][i][1] IN IF f = Timer THEN x \in Tops(fwd) ELSE x \in fwd[f]
PulsesThrough == \A x \in F : \A y \in fwd[x] : st[x] = "off" /\ st[y] = "off" => last[y] >= last[x]
Exits == sig ~> Ended
SView == <<fwd, q, stops, st, todo, sig, acc, out, seen, last, idx, orphans>>
\* wirings to be built for real, with the paths of each source to each sink
Emit == idx = 1 => PrintT("@@" \o ToJson([fwd |-> fwd, paths |-> [s \in Sources |-> [k \in Sinks |-> Paths(fwd, s, k)]]]))
Pick(S, k) == {x \in S : RandomElement(1..k) = 1}
SimInit == Begin([n \in Feeders |-> {}])
SimNext == /\ idx = 0 /\ idx' = 1
           /\ \E k \in {RandomElement(1..4)} : \E w \in {[n \in Feeders |-> Pick(Ahead(n), k)]} : fwd' = w
           /\ UNCHANGED <<q, stops, st, todo, sig, acc, out, seen, last, orphans>>
=============================================================================
