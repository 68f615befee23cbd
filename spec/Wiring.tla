-------------------------------- MODULE Wiring --------------------------------
(* The book of edges the program is wired from: rows of neighbours with an      *)
(* attachment each, or none.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Nodes, Metas, MaxSteps, MaxEdges   \* Metas: 1..n; 0 is none
VARIABLES row,   \* node -> NoRow or neighbour -> attachment
          log
vars == <<row, log>>
View == row
NoRow == [here |-> FALSE, to |-> <<>>]
Init == row = [n \in Nodes |-> NoRow] /\ log = <<>>
Set(r, f, t, m) == [r EXCEPT ![f] = [here |-> TRUE, to |-> [x \in (DOMAIN r[f].to) \cup {t} |-> IF x = t THEN m ELSE r[f].to[x]]]]
RECURSIVE Both(_, _, _, _)
Both(r, f, ts, m) == IF ts = <<>> THEN r ELSE Both(Set(Set(r, f, Head(ts), m), Head(ts), f, m), f, Tail(ts), m)
Near(n) == DOMAIN row[n].to
Pairs(n) == {<<t, row[n].to[t]>> : t \in Near(n)}
Keep(n, w) == {t \in Near(n) : CASE w = "all" -> TRUE [] w = "bare" -> row[n].to[t] = 0 [] w = "attached" -> row[n].to[t] # 0 [] w = "none" -> FALSE}
\* a bag of attachments: how often each comes
Bag(n) == [m \in Metas |-> Cardinality({t \in Near(n) : row[n].to[t] = m})]
Op(a, n, ts, m, w, res, r2) == row' = r2 /\ log' = Append(log, [a |-> a, n |-> n, ts |-> ts, m |-> m, w |-> w, res |-> res])
Lists == UNION {[1..k -> Nodes] : k \in 0..MaxEdges}
Edge(f, t, m) == Op("edge", f, <<t>>, m, "", {}, Set(row, f, t, m))
Edges(f, ts, m) == Op("edges", f, ts, m, "", {}, Both(row, f, ts, m))
Ask(n, w) == Op("filter", n, <<>>, 0, w, Keep(n, w), row)
Count(n) == Op("num", n, <<>>, 0, "", Cardinality(Near(n)), row)
Has(n) == Op("has", n, <<>>, 0, "", row[n].here, row)
Gone(n) == [row EXCEPT ![n] = NoRow]
Pop(n) == Op("pop", n, <<>>, 0, "", [here |-> row[n].here, to |-> Pairs(n)], Gone(n))
PopNodes(n) == Op("nodes", n, <<>>, 0, "", Near(n), Gone(n))
PopMeta(n) == Op("meta", n, <<>>, 0, "", Bag(n), Gone(n))
Next == /\ Len(log) < MaxSteps
        /\ \E n \in Nodes : \/ \E t \in Nodes, m \in Metas \cup {0} : Edge(n, t, m)
                            \/ \E ts \in Lists, m \in Metas \cup {0} : Edges(n, ts, m)
                            \/ \E w \in {"all", "bare", "attached", "none"} : Ask(n, w)
                            \/ Count(n) \/ Has(n) \/ Pop(n) \/ PopNodes(n) \/ PopMeta(n)
Rnd(S) == RandomElement(S)
NextSim == /\ Len(log) < MaxSteps
           /\ \E n \in {Rnd(Nodes)}, t \in {Rnd(Nodes)}, m \in {Rnd(Metas \cup {0})}, d \in {Rnd(1..20)}, k \in {Rnd(0..MaxEdges)}, w \in {Rnd({"all", "bare", "attached", "none"})} :
                CASE d <= 6 -> Edge(n, t, m)
                  [] d \in 7..11 -> \E ts \in {[i \in 1..k |-> Rnd(Nodes)]} : Edges(n, ts, m)
                  [] d \in 12..14 -> Ask(n, w)
                  [] d = 15 -> Count(n) [] d = 16 -> Has(n) [] d = 17 -> Pop(n) [] d = 18 -> PopNodes(n) [] OTHER -> PopMeta(n)
-----------------------------------------------------------------------------
All(r) == {[n |-> n, to |-> {<<t, r[n].to[t]>> : t \in DOMAIN r[n].to}] : n \in {x \in Nodes : r[x].here}}
\* what was declared last is what is kept; nothing but a declaration or a removal of its row touches an edge
Declares(e, f, t) == \/ e.a = "edge" /\ e.n = f /\ e.ts = <<t>>
                     \/ e.a = "edges" /\ (\E i \in DOMAIN e.ts : (e.n = f /\ e.ts[i] = t) \/ (e.n = t /\ e.ts[i] = f))
Removes(e, f) == e.a \in {"pop", "nodes", "meta"} /\ e.n = f
Last(f, t) == LET S == {i \in DOMAIN log : Declares(log[i], f, t) \/ Removes(log[i], f)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
AsDeclared == \A f, t \in Nodes : LET i == Last(f, t) IN
  IF i = 0 \/ Removes(log[i], f) THEN t \notin Near(f) ELSE t \in Near(f) /\ row[f].to[t] = log[i].m
Case(l, r) == "@@" \o ToJson([steps |-> l, all |-> All(r)])
Emit == PrintT(Case(log', row'))
EmitDeep == Len(log) = MaxSteps => PrintT(Case(log, row))
=============================================================================
