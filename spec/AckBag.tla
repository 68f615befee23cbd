------------------------------- MODULE AckBag -------------------------------
(* The bag sources and sinks share to say that an event has been resolved.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, MaxAcks, MaxSteps
VARIABLES bag,    \* key -> -1: not in the bag, otherwise the acknowledgements received
          wait,   \* 0, or the key that is waited for
          log
vars == <<bag, wait, log>>
View == <<bag, wait, Len(log)>>
TypeOK == bag \in [Keys -> -1..MaxAcks] /\ wait \in Keys \cup {0}
Init == bag = [k \in Keys |-> -1] /\ wait = 0 /\ log = <<>>
Ready(b, k) == b[k] # 0
(* what happens while somebody waits ends the wait once it is ready *)
Note(a, k) == log' = Append(log, [a |-> a, k |-> k, bag |-> bag', wait |-> wait'])
Then == wait' = IF wait # 0 /\ Ready(bag', wait) THEN 0 ELSE wait
Prepare(k) == bag' = [bag EXCEPT ![k] = 0] /\ Then /\ Note("prepare", k)
Ack(k) == /\ bag[k] < MaxAcks /\ bag' = [bag EXCEPT ![k] = IF @ = -1 THEN -1 ELSE @ + 1] /\ Then /\ Note("ack", k)
Remove(k) == bag' = [bag EXCEPT ![k] = -1] /\ Then /\ Note("remove", k)
Wait(k) == wait = 0 /\ UNCHANGED bag /\ wait' = (IF Ready(bag, k) THEN 0 ELSE k) /\ Note("wait", k)
Next == Len(log) < MaxSteps /\ \E k \in Keys : Prepare(k) \/ Ack(k) \/ Remove(k) \/ Wait(k)
NextSim == /\ Len(log) < MaxSteps
           /\ \E k \in {RandomElement(Keys)}, d \in {RandomElement(1..10)} :
                IF d <= 3 THEN Prepare(k) ELSE IF d <= 6 /\ bag[k] < MaxAcks THEN Ack(k)
                ELSE IF d = 7 THEN Remove(k) ELSE IF wait = 0 THEN Wait(k) ELSE Remove(k)
(* a wait is over exactly when what is waited for is resolved or nobody's concern *)
NoVainWait == wait # 0 => bag[wait] = 0
Others == [][\A k \in Keys : bag'[k] # bag[k] => log'[Len(log')].k = k]_vars
Emit == PrintT("@@" \o ToJson([steps |-> log']))
EmitDeep == Len(log) = MaxSteps => PrintT("@@" \o ToJson([steps |-> log]))
=============================================================================
