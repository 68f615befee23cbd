------------------------------- MODULE Internal -------------------------------
(* Self-telemetry: counters that anyone may advance at any time, a store of    *)
(* tagged reports, and the source that reports them once in a while and once   *)
(* more when it is stopped.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Counters, Gauges,   \* plain counters; levels, of which the last one set is reported
          Amounts, MaxCounts, MaxPasses, MaxSteps
VARIABLES atom,     \* counter or gauge -> not yet reported
          tagged,   \* tagged reports waiting
          counted, told,  \* totals per counter, tagged ones as "tagged"
          shown,    \* gauge -> the values reported
          pass,     \* what the running pass has still to look at
          mode,     \* "idle", "pass", "last" (the pass at the stop), "over"
          asked,    \* the stop was asked for
          before,   \* totals when it was asked for
          passes, log
vars == <<atom, tagged, counted, told, shown, pass, mode, asked, before, passes, log>>
All == Counters \cup Gauges
Names == Counters \cup {"tagged"}
Zero == [c \in Names |-> 0]
Init == /\ atom = [c \in All |-> 0] /\ tagged = 0 /\ counted = Zero /\ told = Zero /\ shown = [g \in Gauges |-> <<>>]
        /\ pass = {} /\ mode = "idle" /\ asked = FALSE /\ before = Zero /\ passes = 0 /\ log = <<>>
RECURSIVE Sum(_, _)
Sum(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + Sum(g, S \ {x})
Count(c, n) == /\ Sum(counted, Names) + n <= MaxCounts
               /\ atom' = [atom EXCEPT ![c] = @ + n] /\ counted' = [counted EXCEPT ![c] = @ + n]
               /\ UNCHANGED <<tagged, told, shown, pass, mode, asked, before, passes>>
Level(g, v) == /\ atom' = [atom EXCEPT ![g] = v] /\ UNCHANGED <<tagged, counted, told, shown, pass, mode, asked, before, passes>>
Report(n) == /\ Sum(counted, Names) + n <= MaxCounts
             /\ tagged' = tagged + n /\ counted' = [counted EXCEPT !["tagged"] = @ + n]
             /\ UNCHANGED <<atom, told, shown, pass, mode, asked, before, passes>>
Anyone == /\ ((\E n \in Amounts : (\E c \in Counters : Count(c, n)) \/ Report(n) \/ \E g \in Gauges : Level(g, n)))
          /\ UNCHANGED log
StartPass == /\ mode = "idle" /\ ~asked /\ passes < MaxPasses
             /\ mode' = "pass" /\ pass' = All \cup {"tagged"} /\ passes' = passes + 1
             /\ UNCHANGED <<atom, tagged, counted, told, shown, asked, before, log>>
Ask == /\ ~asked /\ asked' = TRUE /\ before' = counted /\ UNCHANGED <<atom, tagged, counted, told, shown, pass, mode, passes, log>>
StartLast == /\ mode = "idle" /\ asked /\ mode' = "last" /\ pass' = All \cup {"tagged"}
             /\ UNCHANGED <<atom, tagged, counted, told, shown, asked, before, passes, log>>
Look(c) == /\ mode \in {"pass", "last"} /\ c \in pass /\ pass' = pass \ {c}
           /\ IF c = "tagged" THEN tagged' = 0 /\ told' = [told EXCEPT !["tagged"] = @ + tagged] /\ UNCHANGED <<atom, shown>>
              ELSE /\ atom' = [atom EXCEPT ![c] = 0] /\ UNCHANGED tagged
                   /\ IF c \in Gauges THEN shown' = [shown EXCEPT ![c] = IF atom[c] = 0 THEN @ ELSE Append(@, atom[c])] /\ UNCHANGED told
                      ELSE told' = [told EXCEPT ![c] = @ + atom[c]] /\ UNCHANGED shown
           /\ UNCHANGED <<counted, mode, asked, before, passes, log>>
EndPass == /\ mode \in {"pass", "last"} /\ pass = {} /\ mode' = IF mode = "last" THEN "over" ELSE "idle"
           /\ UNCHANGED <<atom, tagged, counted, told, shown, pass, asked, before, passes, log>>
Next == Anyone \/ StartPass \/ Ask \/ StartLast \/ EndPass \/ \E c \in All \cup {"tagged"} : Look(c)
Fair == Init /\ [][Next]_vars /\ WF_vars(StartLast \/ EndPass \/ \E c \in All \cup {"tagged"} : Look(c))

(* whole passes, for replay; each step advances any number of counters *)
RPass(last, add, lev, tag) ==
  /\ ~asked /\ asked' = last
  /\ atom' = [c \in All |-> 0] /\ tagged' = 0
  /\ counted' = [c \in Names |-> counted[c] + IF c = "tagged" THEN tag ELSE add[c]]
  /\ told' = counted'
  /\ shown' = [g \in Gauges |-> IF lev[g] = 0 THEN shown[g] ELSE Append(shown[g], lev[g])]
  /\ passes' = passes + 1 /\ mode' = IF last THEN "over" ELSE "idle"
  /\ before' = IF last THEN counted' ELSE before
  /\ log' = Append(log, [add |-> add, lev |-> lev, tag |-> tag, last |-> last])
  /\ UNCHANGED pass
Pick(S, k) == {x \in S : RandomElement(1..k) = 1}
RNextSim == /\ Len(log) < MaxSteps
            /\ \E k \in {RandomElement(1..4)}, tag \in {RandomElement(0..3)} :
               \E S \in {Pick(All, k)} :
               \E add \in {[c \in Counters |-> IF c \in S THEN RandomElement(Amounts) ELSE 0]}, lev \in {[g \in Gauges |-> IF g \in S THEN RandomElement(Amounts) ELSE 0]} :
                 RPass(Len(log) = MaxSteps - 1, add, lev, tag)
-----------------------------------------------------------------------------
Conserved == /\ \A c \in Counters : counted[c] = told[c] + atom[c]
             /\ counted["tagged"] = told["tagged"] + tagged
NothingKept == mode = "over" => \A c \in Names : told[c] >= before[c]
NeverMore == \A c \in Names : told[c] <= counted[c]
StopEnds == asked ~> mode = "over"
NView == <<atom, tagged, counted, told, pass, mode, asked, before, passes>>
EmitDeep == asked => PrintT("@@" \o ToJson([steps |-> log]))
=============================================================================
