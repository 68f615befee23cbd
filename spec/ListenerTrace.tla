--------------------------- MODULE ListenerTrace ---------------------------
(* Trace validation for Listener: runs in which clients send, close and the    *)
(* source is stopped without anybody waiting.  Known are the scripts, how much *)
(* each client had sent and how it had closed when the stop was asked for,     *)
(* which connections the source had ended by then, and everything it           *)
(* forwarded.  How far each handler had read is inferred.                      *)
EXTENDS Listener, Data   \* Data: Traces, a sequence of [script, sent, st, full, out]
VARIABLE tr
T == Traces[tr]
Rec(c) == SelectSeq(T.out, LAMBDA x : x.c = c)
TInit == /\ tr \in 1..Len(Traces)
         /\ script = T.script /\ sent = T.sent /\ st = T.st
         /\ read = [c \in Conns |-> 0] /\ pos = [c \in Conns |-> [u |-> 1, k |-> 0, dead |-> FALSE]]
         /\ alive = [c \in Conns |-> T.st[c] # "idle"] /\ out = <<>> /\ stopped = "no" /\ log = <<>>
(* connections do not affect each other: one after the other *)
Turn(c) == /\ alive[c] /\ T.full[c] = (stopped = "no")
           /\ \A d \in Conns : d < c /\ alive[d] => T.full[d] # T.full[c]
ToUnitEnd(c) == LET m == Cells(script[c][pos[c].u]) - pos[c].k IN IF m > sent[c] - read[c] THEN sent[c] - read[c] ELSE m
TRead(c) == /\ Turn(c) /\ ~pos[c].dead /\ sent[c] > read[c] /\ Read(c, ToUnitEnd(c))
            /\ Prefix(Mine(c, out'), Rec(c))
TEnd(c) == Turn(c) /\ End(c) /\ Mine(c, out') = Rec(c)
TStop == /\ \A c \in Conns : ~(alive[c] /\ T.full[c]) /\ stopped = "no" /\ Stop
TNext == UNCHANGED tr /\ (TStop \/ Marker \/ \E c \in Conns : TRead(c) \/ TEnd(c))
TView == <<tr, read, alive, stopped>>
Accepted == /\ stopped = "done" /\ \A c \in Conns : Mine(c, out) = Rec(c)
            /\ T.out # <<>> /\ T.out[Len(T.out)] = Marked /\ Len(Rec(0)) = 1
Report == Accepted => PrintT("@@" \o ToJson(tr))
TSane == Decoded /\ OnlyDescribed /\ MarkerOnceLast
=============================================================================
