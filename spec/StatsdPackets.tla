--------------------------- MODULE StatsdPackets ---------------------------
(* The statsd source: datagrams of lines  name:value|type[|@rate].             *)
(* Values are in quarters, rates as the factor they stand for, in quarters.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,       \* "" is no name
          Values,      \* [sign |-> "", "+" or "-", q |-> absolute value in quarters, ok]
          Types,       \* texts; the ones known are g, c, ms, h
          Rates,       \* [form |-> "none", "pipe" (|@r) or "bare" (@r), f |-> factor, ok]
          Shapes,      \* "full", "nocolon", "nopipe", "novalue", "notype", "blank"
          Masks,       \* sequence of [names, bounds]: names matched and the bounds they get
          Packets,     \* "every" single line and pair, or sampled of up to that many lines
          MaxPackets
VARIABLES out, good, bad, n, log
vars == <<out, good, bad, n, log>>
Lines == {l \in [name : Names, val : Values, typ : Types, rate : Rates, shape : Shapes] : TRUE}
(* ---- what a line says ---- *)
Known(t) == t \in {"g", "c", "ms", "h"}
OkLine(l) == /\ l.shape = "full" /\ l.name # "" /\ l.val.ok /\ Known(l.typ)
             /\ l.rate.form = "none" \/ l.rate.ok
RECURSIVE MaskOf(_, _)
MaskOf(nm, i) == IF i > Len(Masks) THEN 0 ELSE IF nm \in Masks[i].names THEN i ELSE MaskOf(nm, i + 1)
Amount(l) == LET v == IF l.val.sign = "-" THEN 0 - l.val.q ELSE l.val.q
             IN IF l.rate.form = "none" THEN v ELSE (v * l.rate.f) \div 4
Kind(l) == CASE l.typ = "g" -> IF l.val.sign = "" THEN "set" ELSE "sum"
             [] l.typ = "c" -> "sum"
             [] OTHER -> IF MaskOf(l.name, 1) = 0 THEN "summ" ELSE "hist"
Metric(l) == [name |-> l.name, kind |-> Kind(l), q |-> Amount(l), persist |-> l.typ = "g",
              bounds |-> IF Kind(l) = "hist" THEN Masks[MaskOf(l.name, 1)].bounds ELSE <<>>]
(* ---- datagrams: sequences of lines, or bytes that are no text ---- *)
Good(p) == p.text /\ p.lines # <<>> /\ \A i \in 1..Len(p.lines) : OkLine(p.lines[i])
Says(p) == IF Good(p) THEN [i \in 1..Len(p.lines) |-> Metric(p.lines[i])] ELSE <<>>
Init == out = <<>> /\ good = 0 /\ bad = 0 /\ n = 0 /\ log = <<>>
Receive(p) == /\ n < MaxPackets /\ n' = n + 1
              /\ out' = out \o Says(p)
              /\ good' = good + (IF Good(p) THEN 1 ELSE 0) /\ bad' = bad + (IF Good(p) THEN 0 ELSE 1)
              /\ log' = Append(log, [p |-> p, evs |-> Len(out')])
Text(ls) == [text |-> TRUE, lines |-> ls]
NextOne == \/ \E l \in Lines : Receive(Text(<<l>>))
           \/ Receive(Text(<<>>)) \/ Receive([text |-> FALSE, lines |-> <<>>])
Next == \/ \E l \in Lines : Receive(Text(<<l>>))
        \/ \E l, m \in Lines : Receive(Text(<<l, m>>))
        \/ Receive(Text(<<>>)) \/ Receive([text |-> FALSE, lines |-> <<>>])
(* sampled: a line is mostly good *)
GoodLine == LET N == Names \ {""} V == {v \in Values : v.ok} R == {r \in Rates : r.ok} IN
            [name |-> RandomElement(N), val |-> RandomElement(V), typ |-> RandomElement({"g", "c", "ms", "h"}), rate |-> RandomElement(R), shape |-> "full"]
AnyLine == [name |-> RandomElement(Names), val |-> RandomElement(Values), typ |-> RandomElement(Types), rate |-> RandomElement(Rates), shape |-> RandomElement(Shapes)]
NextSim == /\ n < MaxPackets
           /\ \E k \in {RandomElement(1..Packets)}, d \in {RandomElement(1..40)}, w \in {RandomElement(1..Packets)} :
              \E ls \in {[i \in 1..k |-> IF d <= 8 /\ i = w THEN AnyLine ELSE GoodLine]} :
                 IF d = 9 THEN Receive([text |-> FALSE, lines |-> ls]) ELSE IF d = 10 THEN Receive(Text(<<>>)) ELSE Receive(Text(ls))
PView == n
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
WholeOrNothing == [][\E p \in {log'[Len(log')].p} : Len(out') - Len(out) = (IF Good(p) THEN Len(p.lines) ELSE 0)]_vars
Counted == good + bad = n
(* the result of a datagram does not depend on what came before it *)
Alone == \A i \in 1..Len(log) : LET b == IF i = 1 THEN 0 ELSE log[i - 1].evs IN SubSeq(out, b + 1, log[i].evs) = Says(log[i].p)
OnlyGaugesPersist == \A i \in 1..Len(out) : out[i].persist => out[i].kind \in {"set", "sum"}
-----------------------------------------------------------------------------
PCase == "@@" \o ToJson([steps |-> log, out |-> out, good |-> good, bad |-> bad])
Emit == PrintT(PCase')
EmitDeep == n = MaxPackets => PrintT(PCase)
=============================================================================
