----------------------------- MODULE Listener -----------------------------
(* A listening source.  Each connection carries a script of units - length-    *)
(* prefixed frames, or lines - whose bytes arrive in segments.  A handler per  *)
(* connection reads what has arrived and forwards the events of every unit it  *)
(* has read completely.  A stop ends all handlers and then the stream.         *)
(* A unit's cells: a frame has 4 of prefix, then its body; a line has its text *)
(* and a final newline.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns,          \* connection identities 1..n
          Mode,           \* "frame" or "line"
          Units,          \* [k, body, ev]: kinds good / empty / bad / huge, or good / bad / blank
          MaxUnits,
          MaxSteps,       \* 0: no bound
          Cuts            \* sizes of segments tried, 0 for all that is left; {0} for every size
VARIABLES script,         \* connection -> sequence of units
          st,             \* connection -> "idle" before it connects, "open", "half" (client sends no more), "gone"
          sent, read,     \* cells sent, cells the handler has read
          pos,            \* the handler's decoder: unit being read, cells of it read, dead after something fatal
          alive,          \* the handler is running
          out,            \* what was forwarded: [c, u, e], or the end of stream [c |-> 0]
          stopped,        \* "no", "asked", "done"
          log
vars == <<script, st, sent, read, pos, alive, out, stopped, log>>
LView == <<script, st, sent, read, pos, alive, stopped>>
Cells(u) == IF Mode = "frame" THEN 4 + u.body ELSE u.body + 1
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Cells(Head(s)) + Total(Tail(s))
Fatal(u) == Mode = "frame" /\ u.k \in {"bad", "huge"}
(* the cell of a unit with which it is recognized *)
Decided(u) == IF Mode = "frame" /\ u.k = "huge" THEN 4 ELSE Cells(u)
(* number of units recognized after n cells, and whether the last one was fatal *)
RECURSIVE Seen(_, _, _)
Seen(s, i, n) == IF i > Len(s) \/ n < Decided(s[i]) THEN i - 1
                 ELSE IF Fatal(s[i]) THEN i ELSE Seen(s, i + 1, n - Cells(s[i]))
Dead(s, n) == LET k == Seen(s, 1, n) IN k > 0 /\ Fatal(s[k])
RECURSIVE Before(_, _)
Before(s, k) == IF k = 0 THEN 0 ELSE Before(s, k - 1) + Cells(s[k])
(* what a line handler finds at the end of the connection: the rest is a line too *)
Rest(s, n) == LET k == Seen(s, 1, n) IN IF k < Len(s) THEN n - Before(s, k) ELSE 0
RECURSIVE Events(_, _, _, _)
Events(c, s, i, k) == IF i > k THEN <<>>
    ELSE [e \in 1..s[i].ev |-> [c |-> c, u |-> i, e |-> e]] \o Events(c, s, i + 1, k)
Bad(s, i, k) == Cardinality({j \in i..k : s[j].k \in {"bad", "huge", "blank"}})
OutAt(c, n, end) ==
    LET s == script[c]
        k == Seen(s, 1, n)
        r == IF end /\ Mode = "line" THEN Rest(s, n) ELSE 0
    IN Events(c, s, 1, IF r > 0 /\ r = s[k + 1].body THEN k + 1 ELSE k)
(* the decoder, a cell at a time *)
One(c, i) == [e \in 1..script[c][i].ev |-> [c |-> c, u |-> i, e |-> e]]
RECURSIVE Feed(_, _, _, _)
Feed(c, p, k, acc) ==
    IF k = 0 \/ p.dead THEN [pos |-> p, ev |-> acc]
    ELSE LET u == script[c][p.u]
             done == p.k + 1 = Decided(u)
             q == IF done /\ Fatal(u) THEN [p EXCEPT !.dead = TRUE]
                  ELSE IF p.k + 1 = Cells(u) THEN [u |-> p.u + 1, k |-> 0, dead |-> FALSE]
                  ELSE [p EXCEPT !.k = @ + 1]
         IN Feed(c, q, k - 1, IF done /\ ~Fatal(u) THEN acc \o One(c, p.u) ELSE acc)
(* the end of the connection: the rest of a line is a line, the rest of a frame is nothing *)
AtEnd(c, p) == IF Mode = "line" /\ ~p.dead /\ p.k > 0 /\ p.k = script[c][p.u].body THEN One(c, p.u) ELSE <<>>
Mine(c, o) == SelectSeq(o, LAMBDA x : x.c = c)

Scripts == UNION {[1..n -> Units] : n \in 1..MaxUnits}
Clear == /\ st = [c \in Conns |-> "idle"] /\ sent = [c \in Conns |-> 0] /\ read = [c \in Conns |-> 0]
         /\ pos = [c \in Conns |-> [u |-> 1, k |-> 0, dead |-> FALSE]]
         /\ alive = [c \in Conns |-> FALSE] /\ out = <<>> /\ stopped = "no" /\ log = <<>>
Init == script \in [Conns -> Scripts] /\ Clear
Marked == [c |-> 0, u |-> 0, e |-> 0]
Left(c) == Total(script[c]) - sent[c]
Closings == {"half", "gone", "reset"}

(* lines counted good and bad: all complete ones and what is left of the last one when the client ends *)
Counts(c) == LET s == script[c]
                 k == Seen(s, 1, read[c])
                 r == IF st[c] \in {"half", "gone"} THEN Rest(s, read[c]) ELSE 0
                 g == Cardinality({j \in 1..k : s[j].k = "good"})
                 last == r > 0 /\ r = s[k + 1].body /\ s[k + 1].k = "good"
             IN <<g + (IF last THEN 1 ELSE 0), k - g + (IF r > 0 /\ ~last THEN 1 ELSE 0)>>

(* ---- client and handlers, each at its own pace ---- *)
May == stopped = "no" /\ (MaxSteps = 0 \/ Len(log) < MaxSteps)
Note(a, c) == log' = log           \* not recorded here
Open(c) == /\ May /\ st[c] = "idle"
           /\ st' = [st EXCEPT ![c] = "open"] /\ alive' = [alive EXCEPT ![c] = TRUE]
           /\ Note("open", c) /\ UNCHANGED <<script, sent, read, pos, out, stopped>>
Send(c, k) == /\ May /\ st[c] = "open" /\ k > 0 /\ k <= Left(c)
              /\ sent' = [sent EXCEPT ![c] = @ + k]
              /\ Note("send", c) /\ UNCHANGED <<script, st, read, pos, alive, out, stopped>>
Close(c, how) == /\ May /\ st[c] = "open"
                 /\ st' = [st EXCEPT ![c] = how]
                 /\ Note(how, c) /\ UNCHANGED <<script, sent, read, pos, alive, out, stopped>>
Stop == /\ May /\ stopped' = "asked"
        /\ Note("stop", 0) /\ UNCHANGED <<script, st, sent, read, pos, alive, out>>
(* the handler reads some of what has arrived *)
Read(c, k) == /\ alive[c] /\ k > 0 /\ read[c] + k <= sent[c] /\ ~pos[c].dead
              /\ read' = [read EXCEPT ![c] = @ + k]
              /\ LET f == Feed(c, pos[c], k, <<>>) IN pos' = [pos EXCEPT ![c] = f.pos] /\ out' = out \o f.ev
              /\ UNCHANGED <<script, st, sent, alive, stopped, log>>
(* the handler ends: what came was fatal, nothing more will come, the connection was reset, or it was told to *)
End(c) == /\ alive[c]
          /\ \/ pos[c].dead /\ UNCHANGED out
             \/ st[c] \in Closings /\ read[c] = sent[c] /\ out' = out \o AtEnd(c, pos[c])
             \/ st[c] = "reset" /\ UNCHANGED out
             \/ stopped = "asked" /\ UNCHANGED out
          /\ alive' = [alive EXCEPT ![c] = FALSE]
          /\ UNCHANGED <<script, st, sent, read, pos, stopped, log>>
Marker == /\ stopped = "asked" /\ \A c \in Conns : ~alive[c]
          /\ stopped' = "done" /\ out' = Append(out, Marked)
          /\ UNCHANGED <<script, st, sent, read, pos, alive, log>>
Next == \/ \E c \in Conns :
              \/ Open(c)
              \/ \E n \in 1..Left(c) : Send(c, n)
              \/ \E how \in Closings : Close(c, how)
              \/ \E n \in 1..(sent[c] - read[c]) : Read(c, n)
              \/ End(c)
        \/ Stop \/ Marker

(* ---- a client that waits after each step until the handlers can do no more ---- *)
SNote(a, c, n) == log' = Append(log, [a |-> a, c |-> c, n |-> n, evs |-> Len(out'), alive |-> alive'])
SOpen(c) == /\ May /\ st[c] = "idle"
            /\ st' = [st EXCEPT ![c] = "open"] /\ alive' = [alive EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<script, sent, read, pos, out, stopped>> /\ SNote("open", c, 0)
SSend(c, k) == /\ May /\ st[c] = "open" /\ alive[c] /\ k > 0 /\ k <= Left(c)
               /\ sent' = [sent EXCEPT ![c] = @ + k] /\ read' = [read EXCEPT ![c] = sent[c] + k]
               /\ LET f == Feed(c, pos[c], k, <<>>) IN /\ pos' = [pos EXCEPT ![c] = f.pos] /\ out' = out \o f.ev
                                                       /\ alive' = [alive EXCEPT ![c] = ~f.pos.dead]
               /\ UNCHANGED <<script, st, stopped>> /\ SNote("send", c, k)
SClose(c, how) == /\ May /\ st[c] = "open" /\ alive[c]
                  /\ how = "reset" => AtEnd(c, pos[c]) = <<>>     \* may or may not be a line
                  /\ st' = [st EXCEPT ![c] = how] /\ alive' = [alive EXCEPT ![c] = FALSE]
                  /\ out' = out \o AtEnd(c, pos[c])
                  /\ UNCHANGED <<script, sent, read, pos, stopped>> /\ SNote(how, c, 0)
SStop == /\ May /\ stopped' = "done" /\ alive' = [c \in Conns |-> FALSE] /\ out' = Append(out, Marked)
         /\ UNCHANGED <<script, st, sent, read, pos>> /\ SNote("stop", 0, 0)
Sizes(c) == IF Cuts = {0} THEN 1..Left(c) ELSE {IF k = 0 \/ k > Left(c) THEN Left(c) ELSE k : k \in Cuts}
SNext == \/ \E c \in Conns :
               \/ SOpen(c)
               \/ \E k \in Sizes(c) : SSend(c, k)
               \/ \E how \in Closings : SClose(c, how)
         \/ SStop
(* sampled histories: mostly data *)
Busy == {c \in Conns : st[c] = "idle" \/ (st[c] = "open" /\ alive[c] /\ Left(c) > 0)}
SNextSim == /\ stopped = "no"
            /\ IF Len(log) = MaxSteps - 1 \/ Busy = {} THEN SStop
               ELSE \E c \in {RandomElement(Busy)}, d \in {RandomElement(1..30)} : \E k \in {IF st[c] = "idle" THEN 0 ELSE RandomElement(Sizes(c))} :
                    IF d = 1 THEN \E x \in {RandomElement({y \in Conns : st[y] = "open" /\ alive[y]} \cup {0})}, how \in {RandomElement(Closings)} :
                                  IF x = 0 THEN SOpen(c) \/ SSend(c, k) ELSE SClose(x, how)
                    ELSE SOpen(c) \/ SSend(c, k)
InitSim == /\ script = [c \in Conns |-> LET n == RandomElement(1..MaxUnits) IN [i \in 1..n |-> RandomElement(Units)]]
           /\ Clear
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Marker) /\ \A c \in Conns : (WF_vars(End(c)) /\ WF_vars(\E n \in 1..30 : Read(c, n)))
-----------------------------------------------------------------------------
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* however it arrived: what is forwarded depends on the bytes read only *)
Decoded == \A c \in Conns : pos[c].dead = Dead(script[c], read[c])
ChunkingIrrelevant == \A c \in Conns : alive[c] => Mine(c, out) = OutAt(c, read[c], FALSE)
OnlyDescribed == \A c \in Conns : Prefix(Mine(c, out), OutAt(c, Total(script[c]), FALSE))
MarkerOnceLast == \A i \in 1..Len(out) : out[i].c = 0 => i = Len(out) /\ stopped = "done"
NothingAfter == stopped = "done" => out # <<>> /\ out[Len(out)].c = 0 /\ \A c \in Conns : ~alive[c]
Apart == [][\A c \in Conns : Mine(c, out') # Mine(c, out) => \A d \in Conns \ {c} : Mine(d, out') = Mine(d, out)]_vars
Ends == (stopped = "asked") ~> (stopped = "done")
Served == \A c \in Conns : (alive[c] /\ st[c] \in {"half", "gone"}) ~> ~alive[c]
-----------------------------------------------------------------------------
SCase(lg, o) == "@@" \o ToJson([script |-> script, steps |-> lg, out |-> o, counts |-> [c \in Conns |-> Counts(c)]])
Emit == PrintT(SCase(log, out)')
EmitDeep == stopped = "done" => PrintT(SCase(log, out))
=============================================================================
