---------------------------- MODULE NativeForward ----------------------------
(* The native sink: what it is handed is buffered, and written to the peer as   *)
(* one payload per flush.  A write may fail; then it is done again, whole, on   *)
(* a new connection.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,     \* kinds of items: "set", "sum", "summ", "hist", "log"
          OwnTags, DefTags,  \* sets of sets of keys: tags of items, configured tags
          MaxItems, MaxFails, MaxSteps
VARIABLES defs,      \* the configured tags
          buf,       \* items handed over, not written
          cur,       \* what a flush is writing: <<>> or <<payload>>
          conn,      \* "up", "broken" (noticed at the next write), "down"
          wire,      \* what arrived whole, in order
          fails,     \* failed writes and refused connections
          again,     \* items that may arrive more than once: a write of theirs failed
          n, over, log
vars == <<defs, buf, cur, conn, wire, fails, again, n, over, log>>
NView == <<defs, buf, cur, conn, wire, n, over>>
Items == [id : 1..MaxItems, kind : Kinds, tags : OwnTags, persist : BOOLEAN]
(* a tag shows where its value comes from *)
Tags(it) == [k \in it.tags \cup defs |-> IF k \in it.tags THEN "own" ELSE "default"]
Shown(it) == [id |-> it.id, kind |-> it.kind, persist |-> it.persist, tags |-> Tags(it)]
Payload(b) == [points |-> [i \in 1..Len(SelectSeq(b, LAMBDA x : x.kind # "log")) |-> Shown(SelectSeq(b, LAMBDA x : x.kind # "log")[i])],
               lines |-> [i \in 1..Len(SelectSeq(b, LAMBDA x : x.kind = "log")) |-> Shown(SelectSeq(b, LAMBDA x : x.kind = "log")[i])]]
Ids(p) == {p.points[i].id : i \in 1..Len(p.points)} \cup {p.lines[i].id : i \in 1..Len(p.lines)}
Init == /\ defs \in DefTags /\ buf = <<>> /\ cur = <<>> /\ conn = "up" /\ wire = <<>> /\ fails = 0 /\ again = {} /\ n = 0 /\ over = FALSE /\ log = <<>>
(* ---- write by write ---- *)
Deliver(k, t, p) == /\ ~over /\ cur = <<>> /\ n < MaxItems /\ n' = n + 1 /\ buf' = Append(buf, [id |-> n + 1, kind |-> k, tags |-> t, persist |-> p])
                    /\ UNCHANGED <<defs, cur, conn, wire, fails, again, over, log>>
Begin(last) == /\ ~over /\ cur = <<>> /\ over' = last /\ UNCHANGED <<defs, conn, wire, fails, again, n, log>>
               /\ IF buf = <<>> THEN UNCHANGED <<buf, cur>> ELSE cur' = <<Payload(buf)>> /\ buf' = <<>>
WriteOk == /\ cur # <<>> /\ conn = "up" /\ wire' = Append(wire, cur[1]) /\ cur' = <<>> /\ UNCHANGED <<defs, buf, conn, fails, again, n, over, log>>
(* it may have arrived all the same, before the connection broke *)
WriteFails == /\ cur # <<>> /\ (conn = "broken" \/ (conn = "up" /\ fails < MaxFails))
              /\ conn' = "down" /\ fails' = fails + 1 /\ again' = again \cup Ids(cur[1])
              /\ (UNCHANGED wire \/ (conn = "up" /\ wire' = Append(wire, cur[1])))
              /\ UNCHANGED <<defs, buf, cur, n, over, log>>
Break == conn = "up" /\ fails < MaxFails /\ conn' = "broken" /\ fails' = fails + 1 /\ UNCHANGED <<defs, buf, cur, wire, again, n, over, log>>
Connect == cur # <<>> /\ conn = "down" /\ conn' = "up" /\ UNCHANGED <<defs, buf, cur, wire, fails, again, n, over, log>>
Refused == cur # <<>> /\ conn = "down" /\ fails < MaxFails /\ fails' = fails + 1 /\ UNCHANGED <<defs, buf, cur, conn, wire, again, n, over, log>>
Next == \/ \E k \in Kinds, t \in OwnTags, p \in BOOLEAN : Deliver(k, t, p)
        \/ \E l \in BOOLEAN : Begin(l)
        \/ WriteOk \/ WriteFails \/ Break \/ Connect \/ Refused
Fair == Init /\ [][Next]_vars /\ WF_vars(WriteOk) /\ WF_vars(WriteFails) /\ WF_vars(Connect)
-----------------------------------------------------------------------------
OnWire == UNION {Ids(wire[i]) : i \in 1..Len(wire)}
NothingLost == 1..n = {buf[i].id : i \in 1..Len(buf)} \cup (IF cur = <<>> THEN {} ELSE Ids(cur[1])) \cup OnWire
OnceUnlessFailed == \A i, j \in 1..Len(wire) : i # j => Ids(wire[i]) \cap Ids(wire[j]) \subseteq again
FlushEnds == (cur # <<>>) ~> (cur = <<>>)
AllThere == (over /\ cur = <<>>) => OnWire = 1..n
NeverEmpty == \A i \in 1..Len(wire) : Ids(wire[i]) # {}
-----------------------------------------------------------------------------
(* ---- flush by flush ---- *)
SNote(a, it) == log' = Append(log, [a |-> a, it |-> it, wire |-> Len(wire')])
SDeliver(k, t, p) == /\ n < MaxItems /\ n' = n + 1 /\ buf' = Append(buf, [id |-> n + 1, kind |-> k, tags |-> t, persist |-> p])
                     /\ UNCHANGED <<defs, cur, conn, wire, fails, again, over>> /\ SNote("add", buf'[Len(buf')])
SFlush(how) == /\ fails' = fails + (IF how = "flush" THEN 0 ELSE 1) /\ fails' <= MaxFails
               /\ buf' = <<>> /\ wire' = IF buf = <<>> THEN wire ELSE Append(wire, Payload(buf))
               /\ UNCHANGED <<defs, cur, conn, again, n, over>> /\ SNote(how, 0)
SEnd == over' = TRUE /\ buf' = <<>> /\ wire' = (IF buf = <<>> THEN wire ELSE Append(wire, Payload(buf))) /\ UNCHANGED <<defs, cur, conn, fails, again, n>> /\ SNote("stop", 0)
How == {"flush", "break", "refuse"}
SNext == /\ ~over /\ Len(log) < MaxSteps
         /\ \/ \E k \in Kinds, t \in OwnTags, p \in BOOLEAN : SDeliver(k, t, p)
            \/ \E h \in How : SFlush(h)
            \/ SEnd
InitSim == /\ defs = RandomElement(DefTags) /\ buf = <<>> /\ cur = <<>> /\ conn = "up" /\ wire = <<>> /\ fails = 0 /\ again = {} /\ n = 0 /\ over = FALSE /\ log = <<>>
SNextSim == /\ ~over
            /\ IF Len(log) = MaxSteps - 1 THEN SEnd
               ELSE \E d \in {RandomElement(1..12)} :
                    IF d <= 9 /\ n < MaxItems THEN \E k \in {RandomElement(Kinds)}, t \in {RandomElement(OwnTags)}, p \in {RandomElement(BOOLEAN)} : SDeliver(k, t, p)
                    ELSE \E h \in {RandomElement(IF fails < MaxFails THEN How \cup {"flush"} ELSE {"flush"})} : SFlush(h)
Case(l, w) == "@@" \o ToJson([defs |-> defs, steps |-> l, wire |-> w])
Emit == PrintT(Case(log', IF over' \/ buf' = <<>> THEN wire' ELSE Append(wire', Payload(buf'))))
EmitDeep == over => PrintT(Case(log, wire))
=============================================================================
