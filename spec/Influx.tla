-------------------------------- MODULE Influx --------------------------------
(* The InfluxDB sink: telemetry gathered between flushes, each flush one batch   *)
(* posted until the database takes it, slower after every failure.              *)
(* Replies: ok; lost (taken, but the reply does not arrive); drop (broken before *)
(* it was taken); client, server (refused); other (neither taken nor refused).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,     \* what can be delivered
          MaxItems, MaxSteps, MaxTries, Replies
VARIABLES items,     \* all that was delivered, in order
          buf,       \* how many of them, the last ones, are not yet written
          level,     \* failures not yet made up for: each makes the next attempt wait longer
          phase,     \* idle, flush, stop, gone
          tries,     \* attempts made by this flush
          db,        \* batches the database took: [from, to]
          lost, log
vars == <<items, buf, level, phase, tries, db, lost, log>>
Init == items = <<>> /\ buf = 0 /\ level = 0 /\ phase = "idle" /\ tries = 0 /\ db = <<>> /\ lost = 0 /\ log = <<>>
Max(a, b) == IF a > b THEN a ELSE b
Batch == [from |-> Len(items) - buf + 1, to |-> Len(items)]
Deliver(k) == phase = "idle" /\ Len(items) < MaxItems /\ items' = Append(items, k) /\ buf' = buf + 1 /\ UNCHANGED <<level, phase, tries, db, lost>>
Begin(p) == phase = "idle" /\ phase' = p /\ tries' = 0 /\ UNCHANGED <<items, buf, level, db, lost>>
Failure(r) == r \notin {"ok", "other"}
Try(r) == /\ phase \in {"flush", "stop"} /\ tries' = tries + 1 /\ (r # "ok" => tries < MaxTries)
          /\ db' = IF r \in {"ok", "lost"} THEN Append(db, Batch) ELSE db
          /\ lost' = lost + IF r = "lost" THEN 1 ELSE 0
          /\ level' = CASE r = "ok" -> Max(level - 1, 0) [] Failure(r) -> level + 1 [] OTHER -> level
          /\ IF r = "ok" THEN buf' = 0 /\ phase' = (IF phase = "stop" THEN "gone" ELSE "idle") ELSE UNCHANGED <<buf, phase>>
          /\ UNCHANGED items
Next == UNCHANGED log /\ ((\E k \in Kinds : Deliver(k)) \/ Begin("flush") \/ Begin("stop") \/ \E r \in Replies : Try(r))
Fair == Init /\ [][Next]_vars /\ WF_vars(Try("ok") /\ UNCHANGED log)
-----------------------------------------------------------------------------
Took(i) == {b \in DOMAIN db : db[b].from <= i /\ i <= db[b].to}
\* everything delivered before a finished flush is in the database
Written == \A i \in 1..(Len(items) - buf) : Took(i) # {}
\* and there once, but for replies that went missing
Once == \A i \in DOMAIN items : Cardinality(Took(i)) <= 1 + lost
\* in the order of delivery; what is sent again is the same batch
Ordered == \A a, b \in DOMAIN db : a < b => db[b] = db[a] \/ db[b].from > db[a].to
Bounded == level <= 4 /\ Len(db) <= 5
Ends == (phase = "flush" ~> phase = "idle") /\ (phase = "stop" ~> phase = "gone")
Kept == [][\A i \in (Len(items) - buf + 1)..Len(items) : (buf' = 0) => Took(i)' # {}]_vars
-----------------------------------------------------------------------------
(* histories as the sink's caller sees them; a flush is one step *)
Pause(l) == CASE l = 0 -> 0 [] l = 1 -> 1 [] l = 2 -> 4 [] l = 3 -> 8 [] l = 4 -> 16 [] l = 5 -> 32 [] l = 6 -> 64 [] l = 7 -> 128 [] l = 8 -> 256 [] OTHER -> 512
RECURSIVE After(_, _), Waits(_, _)
After(l, rs) == IF rs = <<>> THEN l ELSE After(CASE rs[1] = "ok" -> Max(l - 1, 0) [] Failure(rs[1]) -> l + 1 [] OTHER -> l, Tail(rs))
Waits(l, rs) == IF rs = <<>> THEN <<>> ELSE <<Pause(l)>> \o Waits(After(l, <<rs[1]>>), Tail(rs))
SDeliver(k) == Deliver(k) /\ log' = Append(log, [a |-> "add", k |-> k])
SFlush(a, rs) == /\ phase = "idle" /\ phase' = (IF a = "stop" THEN "gone" ELSE "idle") /\ buf' = 0
                 /\ level' = After(level, rs \o <<"ok">>)
                 /\ log' = Append(log, [a |-> a, from |-> Batch.from, to |-> Batch.to, replies |-> rs \o <<"ok">>, waits |-> Waits(level, rs \o <<"ok">>)])
                 /\ UNCHANGED <<items, tries, db, lost>>
Short == UNION {[1..n -> Replies \ {"ok", "lost"}] : n \in 0..MaxTries}
SNext == Len(log) < MaxSteps /\ ((\E k \in Kinds : SDeliver(k)) \/ \E rs \in Short : SFlush("flush", rs) \/ SFlush("stop", rs))
RE(S) == RandomElement(S)
Bad(n) == [i \in 1..n |-> RE(Replies \ {"ok", "lost"})]
SNextSim == /\ Len(log) < MaxSteps /\ phase = "idle"
            /\ \E d \in {RE(1..6)}, n \in {RE({0, 0, 1, 1, 2, 3, MaxTries})} : \E rs \in {Bad(n)}, k \in {RE(Kinds)} :
               IF Len(log) = MaxSteps - 1 THEN SFlush("stop", rs) ELSE IF d = 1 THEN SFlush("flush", rs) ELSE SDeliver(k)
SView == <<items, buf, level, phase>>
Say(l) == PrintT("@@" \o ToJson(l))
Emit == log'[Len(log')].a # "add" => Say(log')
EmitDeep == Len(log) = MaxSteps => Say(log)
=============================================================================
