--------------------------- MODULE FlushBoundary ---------------------------
(* The flush-boundary filter: timed events are held in groups by time, each    *)
(* group ages with every pulse, and a group older than the tolerance leaves.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tols, Times, MaxEv, MaxPulse, DeepLen
VARIABLES tol, holds,        \* holds: sequence of [ts, age, evs], increasing ts
          out, nev, npulse, ended, log
vars == <<tol, holds, out, nev, npulse, ended, log>>
View == <<tol, [k \in 1..Len(holds) |-> <<holds[k].ts, holds[k].age, Len(holds[k].evs)>>], nev, npulse, ended>>

Init == tol \in Tols /\ holds = <<>> /\ out = <<>> /\ nev = 0 /\ npulse = 0 /\ ended = FALSE /\ log = <<>>
Id(n) == "e" \o ToString(n)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Evs(h) == Concat([k \in 1..Len(h) |-> h[k].evs])

Group(ts) == {k \in 1..Len(holds) : holds[k].ts = ts}
Below(ts) == Cardinality({k \in 1..Len(holds) : holds[k].ts < ts})
Timed(ts) == /\ nev' = nev + 1
             /\ holds' = IF Group(ts) # {}
                         THEN LET k == CHOOSE k \in Group(ts) : TRUE IN [holds EXCEPT ![k].evs = Append(@, Id(nev))]
                         ELSE LET b == Below(ts) IN SubSeq(holds, 1, b) \o <<[ts |-> ts, age |-> 0, evs |-> <<Id(nev)>>]>> \o SubSeq(holds, b + 1, Len(holds))
             /\ log' = Append(log, [a |-> "timed", ts |-> ts, id |-> Id(nev)])
             /\ UNCHANGED <<tol, out, npulse, ended>>
Untimed == /\ nev' = nev + 1 /\ out' = Append(out, Id(nev))
           /\ log' = Append(log, [a |-> "untimed", ts |-> 0, id |-> Id(nev)])
           /\ UNCHANGED <<tol, holds, npulse, ended>>
Aged == [k \in 1..Len(holds) |-> [holds[k] EXCEPT !.age = @ + 1]]
Old(h) == h.age > tol
Young(h) == h.age <= tol
PulseId(n) == "pulse" \o ToString(n)
Pulse == /\ npulse' = npulse + 1
         /\ out' = out \o Evs(SelectSeq(Aged, Old)) \o <<PulseId(npulse + 1)>>
         /\ holds' = SelectSeq(Aged, Young)
         /\ log' = Append(log, [a |-> "pulse", ts |-> npulse + 1, id |-> PulseId(npulse + 1)])
         /\ UNCHANGED <<tol, nev, ended>>
End == /\ ended' = TRUE /\ out' = out \o Evs(holds) \o <<"END">> /\ holds' = <<>>
       /\ log' = Append(log, [a |-> "end", ts |-> 0, id |-> "end"])
       /\ UNCHANGED <<tol, nev, npulse>>
Next == /\ ~ended
        /\ \/ nev < MaxEv /\ ((\E ts \in Times : Timed(ts)) \/ Untimed)
           \/ npulse < MaxPulse /\ Pulse
           \/ End
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
AllIds == {Id(n) : n \in 0..(nev - 1)}
Held == Evs(holds)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
ExactlyOnce == \A x \in AllIds : Count(out, x) + Count(Held, x) = 1
NothingKept == ended => Held = <<>> /\ out[Len(out)] = "END"
Increasing == \A j, k \in 1..Len(holds) : j < k => holds[j].ts < holds[k].ts
AgeBound == \A k \in 1..Len(holds) : holds[k].age <= tol /\ holds[k].evs # <<>>
(* released at the first pulse by which its group has seen more pulses than the tolerance *)
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
LogPos(x) == CHOOSE k \in 1..Len(log) : log[k].id = x
(* an event is never released before tolerance+1 pulses have passed since its group opened, unless the stream ended *)
NotEarly == \A x \in AllIds : (Count(out, x) = 1 /\ log[LogPos(x)].a = "timed" /\ ~ended) =>
              \E j \in 1..LogPos(x) : /\ log[j].a = "timed" /\ log[j].ts = log[LogPos(x)].ts
                                      /\ Cardinality({k \in (j+1)..Len(log) : log[k].a = "pulse"}) > tol
-----------------------------------------------------------------------------
(* how it goes on from here: pulses until nothing is held, which shows every group's age, then the end *)
RECURSIVE Going(_, _, _)
Going(h, n, acc) ==
    IF h = <<>> THEN [n |-> n, out |-> acc \o <<"END">>]
    ELSE LET g == [k \in 1..Len(h) |-> [h[k] EXCEPT !.age = @ + 1]]
         IN Going(SelectSeq(g, Young), n + 1, acc \o Evs(SelectSeq(g, Old)) \o <<PulseId(n + 1)>>)
More == IF ended THEN [n |-> npulse, out |-> out] ELSE Going(holds, npulse, out)
Final == IF ended THEN out ELSE out \o Evs(holds) \o <<"END">>
Shown(lg) == "@@" \o ToJson([tol |-> tol, steps |-> lg, out |-> Final, from |-> npulse, upto |-> More.n, more |-> More.out])
Emit == PrintT(Shown(log)')
EmitDeep == (Len(log) = DeepLen /\ ~ended) => PrintT(Shown(log))
=============================================================================
