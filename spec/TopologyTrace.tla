----------------------------- MODULE TopologyTrace ----------------------------
(* Recorded runs of the whole program: what came out of every sink must be what *)
(* Topology allows for some number of accepted items per connection, at least   *)
(* those known to have been read and at most those sent; every sink has seen    *)
(* the same ones.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Data
\* Traces: [fwd: node -> names, marks: filters that leave their name on what passes,
\*          conns: <<[srcs, settled, sent, block: filters that consume it]>>, ticks: filter -> pulses it saw, -1 unknown, sinks: <<[name, mode: per connection, got: per connection, set of <<n, label, x>>, runs: sequences of n]>>, alien]
VARIABLES tr, c
Tr == Traces[tr]
F == DOMAIN Tr.fwd
RECURSIVE Paths(_, _)
Paths(n, k) == (IF k \in Tr.fwd[n] THEN {<<>>} ELSE {}) \cup UNION {{<<f>> \o p : p \in Paths(f, k)} : f \in F \cap Tr.fwd[n]}
Label(p) == SelectSeq(p, LAMBDA f : f \in Tr.marks)
\* each: every copy comes out by itself or is counted; once: equal copies come out as one; bare: the label is not shown
Shown(mode, p) == IF mode \in {"bare each", "bare once"} THEN <<>> ELSE Label(p)
Copies(mode, ps, l) == IF mode \in {"once", "bare once"} THEN 1 ELSE Cardinality({p \in ps : Shown(mode, p[2]) = l})
Want(k, srcs, m) == LET ps == {<<s, p>> \in UNION {{<<s, p>> : p \in Paths(s, k.name)} : s \in srcs} : \A i \in DOMAIN p : p[i] \notin Tr.conns[c].block} mode == k.mode[c] IN
  IF mode = "none" THEN {} ELSE {<<n, l, Copies(mode, ps, l)>> : n \in 1..m, l \in {Shown(mode, p[2]) : p \in ps}}
Fits(m) == \A i \in DOMAIN Tr.sinks : LET k == Tr.sinks[i] IN k.got[c] = Want(k, Tr.conns[c].srcs, m)
\* a stage further down sees every pulse of each filter above it, and no others
Filters == DOMAIN Tr.ticks
Top(f) == \E n \in F \ Filters : f \in Tr.fwd[n]
Above(f) == {g \in Filters : f \in Tr.fwd[g]}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Low(_)
Low(f) == IF Tr.ticks[f] >= 0 THEN Tr.ticks[f] ELSE MaxOf({0} \cup {Low(g) : g \in Above(f)})
RECURSIVE Exact(_)
Exact(f) == Tr.ticks[f] >= 0 \/ (~Top(f) /\ \A g \in Above(f) : Exact(g))
Pulses == \A f \in Filters : Tr.ticks[f] >= 0 =>
  LET up == MaxOf({0} \cup {Low(g) : g \in Above(f)}) IN
  /\ Tr.ticks[f] >= up /\ Tr.ticks[f] <= Tr.most
  /\ (~Top(f) /\ \A g \in Above(f) : Exact(g)) => Tr.ticks[f] = up
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
TInit == tr \in 1..Len(Traces) /\ c = 0
TNext == \/ c = 0 /\ Tr.alien = 0 /\ Pulses /\ (\A i \in DOMAIN Tr.sinks : \A s \in Tr.sinks[i].runs : Ascending(s)) /\ c' = 1 /\ UNCHANGED tr
         \/ c > 0 /\ c <= Len(Tr.conns) /\ (\E m \in Tr.conns[c].settled..Tr.conns[c].sent : Fits(m)) /\ c' = c + 1 /\ UNCHANGED tr
TView == <<tr, c>>
TSane == c >= 0
Report == c = Len(Tr.conns) + 1 => PrintT("@@" \o ToJson(tr))
=============================================================================
