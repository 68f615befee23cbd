----------------------------- MODULE FilterLoop -----------------------------
(* The run loop of a filter: several upstreams feed one queue, a processing    *)
(* function turns an event into results or fails, results are fanned out to    *)
(* every forward, and the end of the stream is announced to each forward.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Confs,      \* set of [nu, nf]
          Kinds,      \* event kinds: <<emit, fail>> pairs
          MaxEv,      \* events in total
          Eager, AnyUp, DeepLen

VARIABLES cfg, nev, ended, queue,   \* environment
          ends, phase, holding,     \* the loop; holding: results kept for the end of the stream
          out,                      \* forward -> what its queue received
          sent, produced, log       \* history
vars == <<cfg, nev, ended, queue, ends, phase, holding, out, sent, produced, log>>

Up == 1..cfg.nu
Fwd == 1..cfg.nf
Senders == LET L == Up \ ended IN IF AnyUp THEN L ELSE {u \in L : \A w \in L : u <= w}
Id(n) == "e" \o ToString(n)

Init == /\ cfg \in Confs /\ nev = 0 /\ ended = {} /\ queue = <<>>
        /\ ends = 0 /\ phase = "run" /\ holding = <<>>
        /\ out = [f \in Fwd |-> <<>>]
        /\ sent = <<>> /\ produced = <<>> /\ log = <<>>

CanSend == (Eager => queue = <<>>)

(* emit: how many results; fail: whether processing fails after them; hold: kept until the end *)
SendEvent(u, k) ==
    /\ CanSend /\ u \in Senders /\ nev < MaxEv
    /\ nev' = nev + 1
    /\ LET it == [t |-> "event", id |-> Id(nev), emit |-> k[1], fail |-> k[2], hold |-> k[3]] IN
       /\ queue' = Append(queue, it) /\ sent' = Append(sent, it) /\ log' = Append(log, it)
    /\ UNCHANGED <<cfg, ended, ends, phase, holding, out, produced>>

SendEnd(u) ==
    /\ CanSend /\ u \in Senders
    /\ ended' = ended \cup {u}
    /\ LET it == [t |-> "end", id |-> "u" \o ToString(u), emit |-> 0, fail |-> FALSE, hold |-> 0] IN
       /\ queue' = Append(queue, it) /\ sent' = Append(sent, it) /\ log' = Append(log, it)
    /\ UNCHANGED <<cfg, nev, ends, phase, holding, out, produced>>

Results(it) == [j \in 1..it.emit |-> it.id \o "." \o ToString(j)]
ToAll(seq) == [f \in Fwd |-> out[f] \o seq]

(* results of a successful event; for a failed one its replacement, then what it had emitted *)
Produce(it) == IF it.fail THEN <<it.id \o ".failed">> \o Results(it) ELSE Results(it)

ConsumeEvent ==
    /\ phase = "run" /\ queue # <<>> /\ Head(queue).t = "event"
    /\ out' = ToAll(Produce(Head(queue)))
    /\ produced' = produced \o Produce(Head(queue))
    /\ holding' = holding \o [j \in 1..Head(queue).hold |-> Head(queue).id \o ".held" \o ToString(j)]
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<cfg, nev, ended, ends, phase, sent, log>>

(* after the last upstream's end: what was held, then the end *)
ConsumeEnd ==
    /\ phase = "run" /\ queue # <<>> /\ Head(queue).t = "end"
    /\ ends' = ends + 1 /\ queue' = Tail(queue)
    /\ IF ends' >= cfg.nu
       THEN /\ phase' = "stopped" /\ out' = ToAll(Append(holding, "END"))
            /\ produced' = produced \o holding /\ holding' = <<>>
       ELSE UNCHANGED <<phase, out, produced, holding>>
    /\ UNCHANGED <<cfg, nev, ended, sent, log>>

Consume == ConsumeEvent \/ ConsumeEnd
Next == \/ \E u \in Up : SendEnd(u) \/ \E k \in Kinds : SendEvent(u, k)
        \/ Consume
Spec == Init /\ [][Next]_vars /\ WF_vars(Consume)
-----------------------------------------------------------------------------
NoEnd(s) == SelectSeq(s, LAMBDA x : x # "END")
EndLastOnce == \A f \in Fwd : \A k \in 1..Len(out[f]) : out[f][k] = "END" => k = Len(out[f])
EndAfterAll == (\E f \in Fwd : out[f] # NoEnd(out[f])) => ended = Up /\ queue = <<>> /\ holding = <<>>
AllProduced == \A f \in Fwd : NoEnd(out[f]) = produced
OnePerFailure == \A k \in 1..(Len(sent) - Len(queue)) :
                    sent[k].fail => Len(SelectSeq(produced, LAMBDA x : x = sent[k].id \o ".failed")) = 1
Drains == <>(ended = Up) => <>(\A f \in Fwd : out[f] # <<>> /\ out[f][Len(out[f])] = "END")
-----------------------------------------------------------------------------
EmitAll == IF phase = "stopped" /\ queue = <<>>
           THEN PrintT("@@" \o ToJson([cfg |-> cfg, steps |-> log, out |-> out])) ELSE TRUE
=============================================================================
