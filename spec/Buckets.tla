------------------------------ MODULE Buckets ------------------------------
(* The aggregation store between the event stream and the sinks' flushes.      *)
(* Times are relative to the present, which is a multiple of every bin width.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Widths, Series, Kinds, Times, Persists, MaxEv, DeepLen,
          WithMore     \* samples of summaries and histograms may carry several values at once
VARIABLES width,
          store,       \* series -> points, in time order
          known,       \* the series ever received
          log
vars == <<width, store, known, log>>
View == <<width, store, known>>
Now == 0
Bin(t) == t \div width
Init == width \in Widths /\ store = [s \in Series |-> <<>>] /\ known = {} /\ log = <<>>

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Scalar(k) == k \in {"set", "sum"}
(* the fold of a point with the next sample: <<kind, values>> *)
Fold(p, s) ==
    CASE s.kind = "set" -> <<"set", s.vals>>
      [] s.kind = "sum" -> <<"sum", << SumSeq(p.vals) + s.vals[1] >> >>
      [] Scalar(p.kind) \/ p.kind = s.kind -> <<s.kind, p.vals \o s.vals>>
      [] p.kind = "summ" -> <<s.kind, p.vals \o s.vals>>
      [] OTHER -> <<s.kind, s.vals>>   \* a histogram can become neither a summary nor one of other bounds: it starts over
Folded(p, s) == [p EXCEPT !.kind = Fold(p, s)[1], !.vals = Fold(p, s)[2], !.persist = s.persist]
Fresh(s) == [ts |-> s.ts, kind |-> s.kind, vals |-> s.vals, persist |-> s.persist]

Same(q, b) == {j \in 1..Len(q) : Bin(q[j].ts) = b}
Before(q, b) == {j \in 1..Len(q) : Bin(q[j].ts) < b}
Insert(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
After(q, s) ==
    LET b == Bin(s.ts)
        k == Cardinality(Before(q, b))
    IN IF Same(q, b) # {} THEN [q EXCEPT ![k + 1] = Folded(q[k + 1], s)]
       ELSE IF s.persist /\ k > 0 THEN Insert(q, k, Folded([q[k] EXCEPT !.ts = s.ts], s))
       ELSE Insert(q, k, Fresh(s))

(* values are powers of two, so that no two different folds agree by accident *)
Val(n) == 2 ^ (n % 20)
Add(sr, k, t, p, more) ==
    LET v == Val(Len(log))
        s == [series |-> sr, kind |-> k, ts |-> t, persist |-> p, vals |-> IF more /\ ~Scalar(k) THEN <<v, 3 * v>> ELSE <<v>>]
    IN /\ store' = [store EXCEPT ![sr] = After(@, s)]
       /\ known' = known \cup {sr}
       /\ log' = Append(log, [a |-> "add", s |-> s])
       /\ UNCHANGED width
Reset == /\ store' = [sr \in Series |-> LET q == store[sr] IN
              IF q # <<>> /\ q[Len(q)].persist THEN << [q[Len(q)] EXCEPT !.ts = Now] >> ELSE <<>>]
         /\ log' = Append(log, [a |-> "reset", s |-> [x |-> 0]])
         /\ UNCHANGED <<width, known>>
Next == /\ Len(log) < MaxEv
        /\ \/ \E sr \in Series, k \in Kinds, t \in Times, p \in Persists, m \in (IF WithMore THEN BOOLEAN ELSE {FALSE}) :
                 (m => ~Scalar(k)) /\ Add(sr, k, t, p, m)
           \/ Reset
NextSim == /\ Len(log) < MaxEv
           /\ IF RandomElement(1..8) = 1 THEN Reset
              ELSE Add(RandomElement(Series), RandomElement(Kinds), RandomElement(Times), RandomElement(Persists), RandomElement(BOOLEAN))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* C12 *)
OnePerBin == \A sr \in Series : \A i, j \in 1..Len(store[sr]) : i < j => Bin(store[sr][i].ts) < Bin(store[sr][j].ts)
LastReset == LET R == {k \in 1..Len(log) : log[k].a = "reset"} IN IF R = {} THEN 0 ELSE CHOOSE k \in R : \A j \in R : j <= k
(* the samples of one bin since the last flush, in arrival order *)
Mine(sr, b) == SelectSeq(SubSeq(log, LastReset + 1, Len(log)), LAMBDA e : e.a = "add" /\ e.s.series = sr /\ Bin(e.s.ts) = b)
RECURSIVE FoldAll(_, _)
FoldAll(p, es) == IF es = <<>> THEN p ELSE FoldAll(Folded(p, es[1].s), Tail(es))
ExactFold == \A sr \in Series : LastReset = 0 => \A i \in 1..Len(store[sr]) :
    LET p == store[sr][i]
        es == Mine(sr, Bin(p.ts))
    IN es # <<>> /\ (~es[1].s.persist => p = FoldAll(Fresh(es[1].s), Tail(es)))
NothingLost == \A k \in LastReset + 1..Len(log) : log[k].a = "add" =>
    Same(store[log[k].s.series], Bin(log[k].s.ts)) # {}
(* C13 *)
Starts == [][(\E k \in {Len(log')} : log'[k].a = "reset") =>
             \A sr \in Series : LET q == store[sr] IN
                 store'[sr] = IF q # <<>> /\ q[Len(q)].persist THEN << [q[Len(q)] EXCEPT !.ts = Now] >> ELSE <<>>]_vars
Continues == [][\A sr \in Series : Len(log') > Len(log) /\ log'[Len(log')].a = "add" /\ log'[Len(log')].s.series = sr =>
             LET s == log'[Len(log')].s
                 b == Bin(s.ts)
                 q == store[sr]
                 new == CHOOSE p \in {store'[sr][j] : j \in 1..Len(store'[sr])} : Bin(p.ts) = b
             IN Same(q, b) = {} => IF s.persist /\ Before(q, b) # {}
                  THEN new = Folded([q[Cardinality(Before(q, b))] EXCEPT !.ts = s.ts], s) ELSE new = Fresh(s)]_vars
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(f[x]) + Total(f, S \ {x})
Case(st, kn, lg) == "@@" \o ToJson([width |-> width, steps |-> lg,
    points |-> {[series |-> sr, pts |-> st[sr]] : sr \in {x \in Series : st[x] # <<>>}},
    count |-> Total(st, Series), len |-> Cardinality(kn)])
Emit == PrintT(Case(store', known', log'))
EmitDeep == Len(log) \in {DeepLen, 5} => PrintT(Case(store, known, log))
=============================================================================
