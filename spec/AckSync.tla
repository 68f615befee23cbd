------------------------------ MODULE AckSync ------------------------------
(* Synchronous publishes: a client's publishes are forwarded in order; one     *)
(* that asks for it is answered once the destination has resolved that very    *)
(* publish, and only then is the connection's next one taken.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns, MaxPubs, MaxSteps, Twice   \* Twice: a destination may report again
VARIABLES script,      \* connection -> sequence of BOOLEAN: asks for an answer
          open, sent, taken,
          waiting,     \* connection -> waits for its latest publish to be resolved
          fwd,         \* what was forwarded: sequence of <<connection, number>>
          resolved,    \* set of those
          ans,         \* connection -> sequence of numbers answered
          stopped, log
vars == <<script, open, sent, taken, waiting, fwd, resolved, ans, stopped, log>>
AView == <<script, open, sent, taken, waiting, fwd, resolved, stopped>>
Scripts == UNION {[1..k -> BOOLEAN] : k \in 1..MaxPubs}
Clear == /\ open = [c \in Conns |-> "idle"] /\ sent = [c \in Conns |-> 0] /\ taken = [c \in Conns |-> 0]
         /\ waiting = [c \in Conns |-> FALSE] /\ fwd = <<>> /\ resolved = {} /\ ans = [c \in Conns |-> <<>>]
         /\ stopped = "no" /\ log = <<>>
Init == script \in [Conns -> Scripts] /\ Clear
InitSim == /\ script = [c \in Conns |-> LET k == RandomElement(1..MaxPubs) IN [i \in 1..k |-> RandomElement(1..3) > 1]] /\ Clear
Fwd == {fwd[i] : i \in 1..Len(fwd)}
May == stopped = "no" /\ (MaxSteps = 0 \/ Len(log) < MaxSteps)
(* ---- everybody at their own pace ---- *)
Open(c) == May /\ open[c] = "idle" /\ open' = [open EXCEPT ![c] = "open"] /\ UNCHANGED <<script, sent, taken, waiting, fwd, resolved, ans, stopped, log>>
Send(c) == /\ May /\ open[c] = "open" /\ sent[c] < Len(script[c]) /\ sent' = [sent EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<script, open, taken, waiting, fwd, resolved, ans, stopped, log>>
Take(c) == /\ stopped # "done" /\ open[c] = "open" /\ ~waiting[c] /\ taken[c] < sent[c]
           /\ taken' = [taken EXCEPT ![c] = @ + 1] /\ fwd' = Append(fwd, <<c, taken[c] + 1>>)
           /\ waiting' = [waiting EXCEPT ![c] = script[c][taken[c] + 1]]
           /\ UNCHANGED <<script, open, sent, resolved, ans, stopped, log>>
Resolve(m) == /\ stopped # "done" /\ m \in Fwd \ resolved /\ resolved' = resolved \cup {m}
              /\ UNCHANGED <<script, open, sent, taken, waiting, fwd, ans, stopped, log>>
Answer(c) == /\ waiting[c] /\ <<c, taken[c]>> \in resolved
             /\ waiting' = [waiting EXCEPT ![c] = FALSE] /\ ans' = [ans EXCEPT ![c] = Append(@, taken[c])]
             /\ UNCHANGED <<script, open, sent, taken, fwd, resolved, stopped, log>>
Stop == May /\ stopped' = "asked" /\ UNCHANGED <<script, open, sent, taken, waiting, fwd, resolved, ans, log>>
(* a connection waiting in vain does not keep the source from ending *)
End(c) == /\ stopped = "asked" /\ open[c] = "open" /\ open' = [open EXCEPT ![c] = "ended"] /\ waiting' = [waiting EXCEPT ![c] = FALSE]
          /\ UNCHANGED <<script, sent, taken, fwd, resolved, ans, stopped, log>>
Done == /\ stopped = "asked" /\ \A c \in Conns : open[c] # "open" /\ stopped' = "done"
        /\ UNCHANGED <<script, open, sent, taken, waiting, fwd, resolved, ans, log>>
Next == \/ \E c \in Conns : Open(c) \/ Send(c) \/ Take(c) \/ Answer(c) \/ End(c)
        \/ \E m \in Fwd : Resolve(m)
        \/ Stop \/ Done
(* ---- step by step: after each step everything possible has happened ---- *)
RECURSIVE Run(_, _, _, _)   \* connection c takes what it can from k on, s publishes having been sent
Run(c, k, s, acc) == IF k = s THEN [k |-> k, w |-> FALSE, f |-> acc]
                     ELSE IF script[c][k + 1] THEN [k |-> k + 1, w |-> TRUE, f |-> Append(acc, <<c, k + 1>>)]
                     ELSE Run(c, k + 1, s, Append(acc, <<c, k + 1>>))
Goes(c, s) == LET r == Run(c, taken[c], s, <<>>) IN
              taken' = [taken EXCEPT ![c] = r.k] /\ waiting' = [waiting EXCEPT ![c] = r.w] /\ fwd' = fwd \o r.f
SNote(a, c, n) == log' = Append(log, [a |-> a, c |-> c, n |-> n, fwd |-> Len(fwd'), ans |-> ans'])
SOpen(c) == /\ May /\ open[c] = "idle" /\ open' = [open EXCEPT ![c] = "open"]
            /\ UNCHANGED <<script, sent, taken, waiting, fwd, resolved, ans, stopped>> /\ SNote("open", c, 0)
SSend(c, k) == /\ May /\ open[c] = "open" /\ sent[c] + k <= Len(script[c]) /\ sent' = [sent EXCEPT ![c] = @ + k]
               /\ IF waiting[c] THEN UNCHANGED <<taken, waiting, fwd>> ELSE Goes(c, sent[c] + k)
               /\ UNCHANGED <<script, open, resolved, ans, stopped>> /\ SNote("send", c, k)
SResolve(i) == LET c == fwd[i][1] IN
               /\ May /\ (Twice \/ fwd[i] \notin resolved) /\ resolved' = resolved \cup {fwd[i]}
               /\ IF waiting[c] /\ fwd[i] = <<c, taken[c]>> /\ open[c] = "open"
                  THEN ans' = [ans EXCEPT ![c] = Append(@, taken[c])] /\ Goes(c, sent[c])
                  ELSE UNCHANGED <<ans, taken, waiting, fwd>>
               /\ UNCHANGED <<script, open, sent, stopped>> /\ SNote("resolve", c, i)
(* the client leaves; what it still waits for is nobody's concern *)
SClose(c) == /\ May /\ open[c] = "open" /\ sent[c] = taken[c] /\ open' = [open EXCEPT ![c] = "gone"]
             /\ UNCHANGED <<script, sent, taken, waiting, fwd, resolved, ans, stopped>> /\ SNote("gone", c, 0)
SStop == /\ May /\ stopped' = "done" /\ UNCHANGED <<script, open, sent, taken, waiting, fwd, resolved, ans>> /\ SNote("stop", 0, 0)
SNext == \/ \E c \in Conns : SOpen(c) \/ SClose(c) \/ \E k \in 1..MaxPubs : SSend(c, k)
         \/ \E i \in 1..Len(fwd) : SResolve(i)
         \/ SStop
SNextSim == /\ stopped = "no"
            /\ IF Len(log) = MaxSteps - 1 THEN SStop
               ELSE \E d \in {RandomElement(1..20)}, c \in {RandomElement(Conns)} :
                    IF open[c] = "idle" THEN SOpen(c)
                    ELSE IF d = 1 /\ open[c] = "open" /\ sent[c] = taken[c] THEN SClose(c)
                    ELSE IF (d <= 9 \/ fwd = <<>>) /\ open[c] = "open" /\ sent[c] < Len(script[c])
                         THEN \E k \in {RandomElement(1..(Len(script[c]) - sent[c]))} : SSend(c, IF k > 3 THEN 1 ELSE k)
                    ELSE IF fwd # <<>> THEN \E i \in {RandomElement(LET W == {j \in 1..Len(fwd) : fwd[j] \notin resolved} IN IF W = {} \/ (Twice /\ d = 20) THEN 1..Len(fwd) ELSE W)} : SResolve(i)
                    ELSE SStop
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A c \in Conns : WF_vars(Take(c)) /\ WF_vars(Answer(c)) /\ WF_vars(End(c)) /\ WF_vars(Done)
-----------------------------------------------------------------------------
Sync(c) == SelectSeq([i \in 1..Len(script[c]) |-> i], LAMBDA i : script[c][i])
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AnsweredInOrder == \A c \in Conns : Prefix(ans[c], Sync(c))
AnsweredWhenResolved == \A c \in Conns : \A i \in 1..Len(ans[c]) : <<c, ans[c][i]>> \in resolved
InOrder == \A c \in Conns : SelectSeq(fwd, LAMBDA m : m[1] = c) = [i \in 1..taken[c] |-> <<c, i>>]
OnlyOneOpen == \A c \in Conns : Len(ans[c]) >= Cardinality({i \in 1..taken[c] : script[c][i]}) - 1
NeverAskedNeverBlocked == \A c \in Conns : (sent[c] > taken[c] /\ open[c] = "open" /\ stopped = "no" /\ \A i \in 1..Len(script[c]) : ~script[c][i]) ~> (taken[c] = sent[c] \/ stopped # "no")
ResolvedIsAnswered == \A c \in Conns : (waiting[c] /\ <<c, taken[c]>> \in resolved) ~> (~waiting[c])
Ends == (stopped = "asked") ~> (stopped = "done")
-----------------------------------------------------------------------------
ACase(l, f, a) == "@@" \o ToJson([script |-> script, steps |-> l, fwd |-> f, ans |-> a])
Emit == PrintT(ACase(log, fwd, ans)')
EmitDeep == stopped = "done" => PrintT(ACase(log, fwd, ans))
=============================================================================
