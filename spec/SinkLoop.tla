------------------------------ MODULE SinkLoop ------------------------------
(* The consuming loop of a sink: a queue fed by several upstreams (sources or  *)
(* filters), periodic pulses that may be repeated or stale, end-of-stream      *)
(* markers, and a sink with bounded capacity (its "valve").                    *)
(* One Consume step is one turn of the inner loop of RunnableSink::consume.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Confs,     \* set of configurations, see cfg
          MaxPulse,  \* pulse numbers are 1..MaxPulse
          MaxEv,     \* events in total
          MaxPulses, \* pulses in total
          AnyUp,     \* FALSE: only the lowest live upstream sends (symmetry, for generation)
          Eager,     \* TRUE: the queue is drained before the next send (for generation)
          DeepLen    \* length of behaviours emitted in simulation

VARIABLES cfg,                           \* nu: configured upstreams; cap: items the sink holds before its valve closes;
                                         \* stub: flushes without effect before one empties a full sink;
                                         \* interval: flush interval in pulses, -1 for never
          nev, npulse, ended, queue,     \* environment
          held, stub, last, ends, phase, \* the sink and its loop
          sent, calls, pflush,           \* history: queue order, calls on the sink, pulses that flushed
          log                            \* history: the inputs, as a script

NU == cfg.nu
Cap == cfg.cap
Stub == cfg.stub
Interval == cfg.interval

env == <<nev, npulse, ended, queue>>
loop == <<held, stub, last, ends, phase>>
hist == <<sent, calls, pflush, log>>
vars == <<cfg, env, loop, hist>>
View == <<cfg, env, loop>>

Up == 1..NU
Live == Up \ ended
Senders == IF AnyUp THEN Live ELSE {u \in Live : \A w \in Live : u <= w}
EvId(u, n) == "e" \o ToString(u) \o "." \o ToString(n)

Init == /\ cfg \in Confs
        /\ nev = 0 /\ npulse = 0 /\ ended = {} /\ queue = <<>>
        /\ held = 0 /\ stub = Stub /\ last = 0 /\ ends = 0 /\ phase = "run"
        /\ sent = <<>> /\ calls = <<>> /\ pflush = <<>> /\ log = <<>>

CanSend == Eager => queue = <<>>

Put(item, rec) == /\ CanSend
                  /\ queue' = Append(queue, item) /\ sent' = Append(sent, item)
                  /\ log' = Append(log, rec)
                  /\ UNCHANGED <<loop, calls, pflush>>

SendEvent(u) == /\ u \in Senders /\ nev < MaxEv
                /\ nev' = nev + 1
                /\ Put([t |-> "event", id |-> EvId(u, nev)], [a |-> "event", id |-> EvId(u, nev)])
                /\ UNCHANGED <<npulse, ended>>

SendPulse(i) == /\ Live # {} /\ npulse < MaxPulses
                /\ npulse' = npulse + 1
                /\ Put([t |-> "pulse", i |-> i], [a |-> "pulse", i |-> i])
                /\ UNCHANGED <<nev, ended>>

SendEnd(u) == /\ u \in Senders
              /\ ended' = ended \cup {u}
              /\ Put([t |-> "end", u |-> u], [a |-> "end", u |-> u])
              /\ UNCHANGED <<nev, npulse>>

(* a flush of the sink: without effect the first Stub times it is full *)
FlushSink == IF held >= Cap /\ stub > 0
             THEN held' = held /\ stub' = stub - 1
             ELSE held' = 0 /\ stub' = Stub

DueFlush(i) == Interval >= 0 /\ (IF Interval = 0 THEN TRUE ELSE i % Interval = 0)

(* valve closed: flush and keep the event *)
ConsumeClosed == /\ phase = "run" /\ queue # <<>> /\ held >= Cap
                 /\ FlushSink /\ calls' = Append(calls, "flush")
                 /\ UNCHANGED <<env, last, ends, phase, sent, pflush, log>>

ConsumeEvent == /\ phase = "run" /\ queue # <<>> /\ held < Cap /\ Head(queue).t = "event"
                /\ held' = held + 1 /\ calls' = Append(calls, Head(queue).id)
                /\ queue' = Tail(queue)
                /\ UNCHANGED <<nev, npulse, ended, stub, last, ends, phase, sent, pflush, log>>

ConsumePulse == /\ phase = "run" /\ queue # <<>> /\ held < Cap /\ Head(queue).t = "pulse"
                /\ LET i == Head(queue).i IN
                   IF i > last
                   THEN /\ last' = i
                        /\ IF DueFlush(i)
                           THEN /\ FlushSink /\ calls' = Append(calls, "flush")
                                /\ pflush' = Append(pflush, i)
                           ELSE UNCHANGED <<held, stub, calls, pflush>>
                   ELSE UNCHANGED <<last, held, stub, calls, pflush>>
                /\ queue' = Tail(queue)
                /\ UNCHANGED <<nev, npulse, ended, ends, phase, sent, log>>

ConsumeEnd == /\ phase = "run" /\ queue # <<>> /\ held < Cap /\ Head(queue).t = "end"
              /\ ends' = ends + 1 /\ queue' = Tail(queue)
              /\ IF ends' >= NU
                 THEN phase' = "stopped" /\ calls' = Append(calls, "stop")
                 ELSE UNCHANGED <<phase, calls>>
              /\ UNCHANGED <<nev, npulse, ended, held, stub, last, sent, pflush, log>>

Consume == ConsumeClosed \/ ConsumeEvent \/ ConsumePulse \/ ConsumeEnd

Next == /\ UNCHANGED cfg
        /\ \/ \E u \in Up : SendEvent(u) \/ SendEnd(u)
           \/ \E i \in 1..MaxPulse : SendPulse(i)
           \/ Consume

Spec == Init /\ [][Next]_vars /\ WF_vars(Consume /\ UNCHANGED cfg)

-----------------------------------------------------------------------------
(* C01 *)
EventsOf(q) == SelectSeq(q, LAMBDA x : x.t = "event")
Delivered == SelectSeq(calls, LAMBDA c : c \notin {"flush", "stop"})
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Ids(q) == [k \in 1..Len(q) |-> q[k].id]
InOrderExactlyOnce == Ids(EventsOf(sent)) = Delivered \o Ids(EventsOf(queue))
StopsLastAndOnce == /\ \A k \in 1..Len(calls) : calls[k] = "stop" => k = Len(calls)
                    /\ (phase = "stopped") <=> (calls # <<>> /\ calls[Len(calls)] = "stop")
StopsAfterAll == phase = "stopped" => ended = Up /\ queue = <<>>
Drains == <>(ended = Up) => <>(phase = "stopped")
(* C02 *)
NeverOverfull == held <= Cap
BackPressure == [][held >= Cap => Delivered' = Delivered /\ queue' \in {queue, Append(queue, sent'[Len(sent')])}]_vars
(* C03 *)
PulseOnce == \A j, k \in 1..Len(pflush) : j < k => pflush[j] < pflush[k]
PulseDue == \A k \in 1..Len(pflush) : DueFlush(pflush[k])
Consumed == SubSeq(sent, 1, Len(sent) - Len(queue))
Fresh(k) == Consumed[k].t = "pulse" /\ \A j \in 1..(k-1) : Consumed[j].t = "pulse" => Consumed[j].i < Consumed[k].i
PulseExact == {pflush[k] : k \in 1..Len(pflush)} = {Consumed[k].i : k \in {x \in 1..Len(Consumed) : Fresh(x) /\ DueFlush(Consumed[x].i)}}

-----------------------------------------------------------------------------
(* emission of behaviours for replay *)
Emit == IF queue' = <<>> /\ queue # <<>>
        THEN PrintT("@@" \o ToJson([cfg |-> cfg, steps |-> log', calls |-> calls'])) ELSE TRUE
EmitDeep == IF queue = <<>> /\ Len(log) > 0 /\ (Len(log) = DeepLen \/ phase = "stopped")
            THEN PrintT("@@" \o ToJson([cfg |-> cfg, steps |-> log, calls |-> calls])) ELSE TRUE
=============================================================================
