------------------------------- MODULE Fanout -------------------------------
(* Sending events to a list of forwards: every forward has a bounded queue of  *)
(* its own, several senders share the queues, the receivers take when they     *)
(* like.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Senders, Fwds,
          CapSets,        \* possible capacities; 0 stands for none
          MaxSends, MaxSteps
VARIABLES cap,     \* forward -> capacity
          q, got,  \* forward -> events waiting / taken; an event is <<sender, number>>
          todo,    \* sender -> forwards still to be served with its current event
          n,       \* sender -> events begun
          dropped, \* the counter
          missed,  \* <<forward, event>> refused
          wrong,   \* refused although there was room
          log
vars == <<cap, q, got, todo, n, dropped, missed, wrong, log>>
Start == /\ cap \in [Fwds -> CapSets]
         /\ q = [f \in Fwds |-> <<>>] /\ got = [f \in Fwds |-> <<>>]
         /\ todo = [s \in Senders |-> {}] /\ n = [s \in Senders |-> 0]
         /\ dropped = 0 /\ missed = {} /\ wrong = FALSE /\ log = <<>>
Full(f) == cap[f] # 0 /\ Len(q[f]) >= cap[f]
RECURSIVE Sum(_, _)
Sum(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + Sum(g, S \ {x})
Total == Sum(n, Senders)

(* forward by forward *)
Begin(s) == /\ todo[s] = {} /\ Total < MaxSends
            /\ n' = [n EXCEPT ![s] = @ + 1] /\ todo' = [todo EXCEPT ![s] = Fwds]
            /\ UNCHANGED <<cap, q, got, dropped, missed, wrong, log>>
Put(s, f) == /\ f \in todo[s] /\ todo' = [todo EXCEPT ![s] = @ \ {f}]
             /\ IF Full(f) THEN dropped' = dropped + 1 /\ missed' = missed \cup {<<f, <<s, n[s]>> >>} /\ UNCHANGED q
                ELSE q' = [q EXCEPT ![f] = Append(@, <<s, n[s]>>)] /\ UNCHANGED <<dropped, missed>>
             /\ wrong' = (wrong \/ (Full(f) /\ Len(q[f]) < cap[f]))
             /\ UNCHANGED <<cap, got, n, log>>
Takes(f) == q[f] # <<>> /\ q' = [q EXCEPT ![f] = Tail(@)] /\ got' = [got EXCEPT ![f] = Append(@, Head(q[f]))]
Take(f) == /\ Takes(f)
           /\ UNCHANGED <<cap, todo, n, dropped, missed, wrong, log>>
Next == (\E s \in Senders : Begin(s) \/ \E f \in Fwds : Put(s, f)) \/ \E f \in Fwds : Take(f)
Fair == Start /\ [][Next]_vars /\ \A s \in Senders : WF_vars(\E f \in Fwds : Put(s, f))   \* whatever the receivers do

(* a send at a time: what is replayed *)
SSend(s) == /\ Total < MaxSends
            /\ n' = [n EXCEPT ![s] = @ + 1]
            /\ LET e == <<s, n[s] + 1>>
                   no == {f \in Fwds : Full(f)} IN
               /\ q' = [f \in Fwds |-> IF f \in no THEN q[f] ELSE Append(q[f], e)]
               /\ dropped' = dropped + Cardinality(no)
               /\ missed' = missed \cup {<<f, e>> : f \in no}
               /\ log' = Append(log, [a |-> "send", s |-> s, f |-> 0, e |-> e])
            /\ UNCHANGED <<cap, got, todo, wrong>>
STake(f) == Takes(f) /\ log' = Append(log, [a |-> "take", s |-> 0, f |-> f, e |-> Head(q[f])])
            /\ UNCHANGED <<cap, todo, n, dropped, missed, wrong>>
SNext == Len(log) < MaxSteps /\ ((\E s \in Senders : SSend(s)) \/ \E f \in Fwds : STake(f))
SNextSim == /\ Len(log) < MaxSteps
            /\ \E d \in {RandomElement(1..5)}, s \in {RandomElement(Senders)}, f \in {RandomElement(Fwds)} :
                 IF d <= 3 \/ q[f] = <<>> THEN SSend(s) ELSE STake(f)
-----------------------------------------------------------------------------
Events == UNION {{<<s, k>> : k \in 1..n[s]} : s \in Senders}
All(f) == got[f] \o q[f]
Places(f, e) == {i \in DOMAIN All(f) : All(f)[i] = e}
Done(f, e) == e[2] < n[e[1]] \/ f \notin todo[e[1]]
EachOnce == \A f \in Fwds, e \in Events : Cardinality(Places(f, e)) = IF Done(f, e) /\ <<f, e>> \notin missed THEN 1 ELSE 0
InOrder == \A f \in Fwds : \A i, j \in DOMAIN All(f) : i < j /\ All(f)[i][1] = All(f)[j][1] => All(f)[i][2] < All(f)[j][2]
Counted == dropped = Cardinality(missed) /\ ~wrong
SendsEnd == \A s \in Senders : todo[s] # {} ~> todo[s] = {}
(* a full forward makes no difference to another *)
Apart == \A f \in Fwds : cap[f] = 0 => \A x \in missed : x[1] # f

SView == <<cap, q, n, dropped>>
Case(l, g, w, d) == "@@" \o ToJson([cap |-> cap, steps |-> l, all |-> [f \in Fwds |-> g[f] \o w[f]], dropped |-> d])
Emit == PrintT(Case(log', got', q', dropped'))
EmitDeep == Len(log) = MaxSteps => PrintT(Case(log, got, q, dropped))
=============================================================================
