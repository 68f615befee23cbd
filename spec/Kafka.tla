-------------------------------- MODULE Kafka --------------------------------
(* The Kafka sink: events handed to the client library, the broker's replies,   *)
(* flushes that gather results and send again, connections that break.          *)
(* A reply: ok, perm (refused for good), trans (transient, up to the sink),     *)
(* inner (transient, the client library tries again by itself), drop (the       *)
(* connection breaks instead of a reply).                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEvents, Limit, Sizes, Scripts, MaxSteps
VARIABLES ev,      \* [rep: replies to come, st: fly / back / ok / perm, tries, noted: result gathered]
          bytes,   \* handed over since the last flush
          phase,   \* idle / flush / gone
          count,   \* [ok, retry, perm] as counted by the sink
          fresh,   \* no event since the last flush
          log
vars == <<ev, bytes, phase, count, fresh, log>>
Init == ev = <<>> /\ bytes = 0 /\ phase = "idle" /\ count = [ok |-> 0, retry |-> 0, perm |-> 0] /\ fresh = TRUE /\ log = <<>>
Closed == bytes >= Limit
Ids(s) == {i \in DOMAIN ev : ev[i].st = s}
Deliver(sc, sz) == /\ phase = "idle" /\ ~Closed /\ Len(ev) < MaxEvents
                   /\ ev' = Append(ev, [rep |-> sc, st |-> "fly", tries |-> 0, noted |-> FALSE])
                   /\ bytes' = bytes + sz /\ fresh' = FALSE
                   /\ UNCHANGED <<phase, count>>
Given(i, s) == [ev EXCEPT ![i] = [@ EXCEPT !.rep = Tail(@), !.st = s, !.tries = @ + 1]]
Reply(i) == /\ ev[i].st = "fly"
            /\ LET r == Head(ev[i].rep) IN
               CASE r \in {"ok", "perm"} -> ev' = Given(i, r)
                 [] r = "trans" -> ev' = Given(i, "back")
                 [] r = "inner" -> ev' = Given(i, "fly")
                 [] r = "drop" -> \* whatever else was under way on the connection comes back too, unread
                    \E S \in SUBSET (Ids("fly") \ {i}) : ev' = [j \in DOMAIN ev |-> IF j \in S THEN [ev[j] EXCEPT !.st = "back"] ELSE Given(i, "back")[j]]
            /\ UNCHANGED <<bytes, phase, count, fresh>>
Flush(to) == phase = "idle" /\ phase' = to /\ UNCHANGED <<ev, bytes, count, fresh>>
\* all results are there: note them, send again what came back
Gather == /\ phase \in {"flush", "stop"} /\ Ids("fly") = {}
          /\ LET back == Ids("back") new(s) == {i \in Ids(s) : ~ev[i].noted} IN
             /\ count' = [ok |-> count.ok + Cardinality(new("ok")), perm |-> count.perm + Cardinality(new("perm")), retry |-> count.retry + Cardinality(back)]
             /\ ev' = [i \in DOMAIN ev |-> IF i \in back THEN [ev[i] EXCEPT !.st = "fly"] ELSE [ev[i] EXCEPT !.noted = TRUE]]
             /\ IF back = {} THEN phase' = (IF phase = "stop" THEN "gone" ELSE "idle") /\ bytes' = 0 /\ fresh' = TRUE
                ELSE UNCHANGED <<phase, bytes, fresh>>
Next == /\ UNCHANGED log
        /\ \/ \E sc \in Scripts, sz \in Sizes : Deliver(sc, sz)
           \/ \E i \in DOMAIN ev : Reply(i)
           \/ Flush("flush") \/ Flush("stop") \/ Gather
Fair == Init /\ [][Next]_vars /\ WF_vars(\E i \in DOMAIN ev : Reply(i) /\ UNCHANGED log) /\ WF_vars(Gather /\ UNCHANGED log)
-----------------------------------------------------------------------------
\* nothing is acknowledged before its fate is known
Sound == \A i \in DOMAIN ev : ev[i].noted => ev[i].st \in {"ok", "perm"}
\* after a flush nothing is under way, and everything was noted
Settled == (fresh /\ phase \in {"idle", "gone"}) => \A i \in DOMAIN ev : ev[i].st \in {"ok", "perm"} /\ ev[i].noted
\* once stored or refused for good, an event is not sent again
Final == [][\A i \in DOMAIN ev : ev[i].st \in {"ok", "perm"} => ev'[i].st = ev[i].st /\ ev'[i].tries = ev[i].tries]_vars
Counted == phase \in {"idle", "gone"} => count.ok + count.perm = Cardinality({i \in DOMAIN ev : ev[i].noted})
FlushesEnd == (phase = "flush" ~> phase = "idle") /\ (phase = "stop" ~> phase = "gone")
Reopens == [][(phase = "flush" /\ phase' = "idle") => ~Closed']_vars
-----------------------------------------------------------------------------
(* histories as the sink's caller sees them; a flush is one step *)
All(sc) == LET p == {k \in DOMAIN sc : sc[k] \in {"ok", "perm"}} IN SubSeq(sc, 1, CHOOSE k \in p : \A j \in p : k <= j)
Done(e) == LET s == All(e.rep) IN [e EXCEPT !.st = s[Len(s)], !.tries = Len(s), !.noted = TRUE]
Note(a, sc, sz) == log' = Append(log, [a |-> a, rep |-> sc, size |-> sz, closed |-> bytes' >= Limit, noted |-> Cardinality({i \in DOMAIN ev' : ev'[i].noted})])
SDeliver(sc, sz) == Deliver(sc, sz) /\ Note("deliver", sc, sz)
SFlush(a) == /\ phase = "idle" /\ phase' = (IF a = "stop" THEN "gone" ELSE "idle") /\ bytes' = 0 /\ fresh' = TRUE
             /\ ev' = [i \in DOMAIN ev |-> IF ev[i].noted THEN ev[i] ELSE Done(ev[i])]
             /\ UNCHANGED count /\ Note(a, <<>>, 0)
SNext == Len(log) < MaxSteps /\ ((\E sc \in Scripts, sz \in Sizes : SDeliver(sc, sz)) \/ SFlush("flush") \/ SFlush("stop"))
RE(S) == RandomElement(S)
SNextSim == /\ Len(log) < MaxSteps /\ phase = "idle"
            /\ IF Len(log) = MaxSteps - 1 THEN \E a \in {RE({"flush", "stop"})} : SFlush(a)
               ELSE IF Closed THEN SFlush("flush")
               ELSE \E d \in {RE(1..8)}, sc \in {RE(Scripts)}, sz \in {RE(Sizes)} : IF d = 1 THEN SFlush("flush") ELSE SDeliver(sc, sz)
SView == <<ev, bytes, phase, fresh>>
Say(l) == PrintT("@@" \o ToJson(l))
Emit == log'[Len(log')].a # "deliver" => Say(log')
EmitDeep == Len(log) = MaxSteps => Say(log)
=============================================================================
