----------------------------- MODULE Prometheus -----------------------------
(* The Prometheus sink: one accumulator per series, which is a metric name and *)
(* a set of tags; all series of a name are of one kind.  Gauges, counters and  *)
(* histograms are kept for ever; a summary has lifetime totals and a window of *)
(* samples by time, from which its quantiles come.  Times are relative to the  *)
(* present at the start, which `now` counts from.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Groups, Kinds, Times, Caps, Ages, Ticks, Signs, MaxEv, WithMore
VARIABLES cap, age,       \* window in seconds; age threshold (0: none)
          now,
          data,           \* series -> NoAcc or an accumulator
          log
vars == <<cap, age, now, data, log>>
PView == <<cap, age, now, data>>
Series == Names \X Groups
NoAcc == [kind |-> "none", vals |-> <<>>, win |-> <<>>]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Init == /\ cap \in Caps /\ age \in Ages /\ now = 0
        /\ data = [x \in Series |-> NoAcc] /\ log = <<>>
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Scalar(k) == k \in {"set", "sum"}
Val(n) == 2 ^ (n % 20)

(* the window: samples [ts, vals] in time order, at most cap of them *)
Earlier(w, t) == Cardinality({j \in 1..Len(w) : w[j].ts < t})
Put(w, t, vs) ==
    LET k == Earlier(w, t) IN
    IF \E j \in 1..Len(w) : w[j].ts = t THEN [w EXCEPT ![k + 1].vals = @ \o vs]
    ELSE LET x == SubSeq(w, 1, k) \o << [ts |-> t, vals |-> vs] >> \o SubSeq(w, k + 1, Len(w))
         IN IF Len(w) > 0 /\ Len(x) > cap THEN SubSeq(x, Len(x) - cap + 1, Len(x)) ELSE x
Taken(a, k, t, vs) ==
    CASE k = "set" -> [kind |-> k, vals |-> vs, win |-> <<>>]
      [] k = "sum" -> [kind |-> k, vals |-> << SumSeq(a.vals) + SumSeq(vs) >>, win |-> <<>>]
      [] k = "hist" -> [kind |-> k, vals |-> a.vals \o vs, win |-> <<>>]
      [] k = "summ" -> [kind |-> k, vals |-> a.vals \o vs, win |-> Put(a.win, t, vs)]
(* a name keeps the kind it was first delivered with *)
KindOfName(n) == {data[x].kind : x \in {y \in Series : y[1] = n}} \ {"none"}
Deliver(n, g, k, t, more, sign) ==
    LET v == sign * Val(Len(log))
        vs == IF more /\ ~Scalar(k) THEN <<v, 3 * v>> ELSE <<v>>
    IN /\ data' = IF (age # 0 /\ Abs(t - now) > age) \/ KindOfName(n) \notin {{}, {k}} THEN data ELSE [data EXCEPT ![<<n, g>>] = Taken(@, k, t, vs)]
       /\ log' = Append(log, [a |-> "add", s |-> [name |-> n, grp |-> g, kind |-> k, ts |-> t, vals |-> vs]])
       /\ UNCHANGED <<cap, age, now>>
Flush == /\ data' = [n \in Series |-> [data[n] EXCEPT !.win = SelectSeq(@, LAMBDA x : Abs(x.ts - now) <= cap)]]
         /\ log' = Append(log, [a |-> "flush", s |-> [x |-> 0]])
         /\ UNCHANGED <<cap, age, now>>
(* what a scrape shows of one name: nothing of a summary whose window is empty *)
RECURSIVE Flat(_)
Flat(w) == IF w = <<>> THEN <<>> ELSE Head(w).vals \o Flat(Tail(w))
Visible(a) == a.kind # "none" /\ (a.kind = "summ" => a.win # <<>>)
Show(d) == {[name |-> n[1], grp |-> n[2], kind |-> d[n].kind, count |-> Len(d[n].vals), sum |-> SumSeq(d[n].vals),
             vals |-> IF d[n].kind = "summ" THEN Flat(d[n].win) ELSE d[n].vals] : n \in {x \in Series : Visible(d[x])}}
Scrape == /\ log' = Append(log, [a |-> "scrape", s |-> [show |-> Show(data)]])
          /\ UNCHANGED <<cap, age, now, data>>
Tick(d) == /\ now' = now + d
           /\ log' = Append(log, [a |-> "tick", s |-> [now |-> now + d]])
           /\ UNCHANGED <<cap, age, data>>
Next == /\ Len(log) < MaxEv
        /\ \/ \E n \in Names, gr \in Groups, k \in Kinds, t \in Times, m \in (IF WithMore THEN BOOLEAN ELSE {FALSE}), g \in Signs :
                 (m => ~Scalar(k)) /\ Deliver(n, gr, k, t, m, g)
           \/ Flush
           \/ Scrape
           \/ \E d \in Ticks : Tick(d)
(* in sampled histories a name mostly keeps its kind *)
KindOf(n) == << "set", "sum", "summ", "hist" >>[(n % 4) + 1]
NextSim == /\ Len(log) < MaxEv
           /\ \E c \in {RandomElement(1..10)}, n \in {RandomElement(Names)}, gr \in {RandomElement(Groups)} :
              CASE c = 1 -> Flush
                [] c = 2 -> Scrape
                [] c = 3 /\ Ticks # {} -> Tick(RandomElement(Ticks))
                [] OTHER -> Deliver(n, gr, IF c = 4 THEN RandomElement(Kinds) ELSE KindOf(n), now + RandomElement(Times), RandomElement(BOOLEAN), RandomElement(Signs))
(* the clock ticks at fixed points, so that many sinks can share it *)
TickEvery == 10
NextClock == /\ Len(log) < MaxEv
             /\ IF (Len(log) + 1) % TickEvery = 0 THEN Tick(10)
                ELSE \E c \in {RandomElement(1..5)}, n \in {RandomElement(Names)}, gr \in {RandomElement(Groups)} :
                     CASE c = 1 -> Flush
                       [] c = 2 -> Scrape
                       [] OTHER -> Deliver(n, gr, KindOf(n), now + RandomElement(Times), RandomElement(BOOLEAN), 1)
(* a run of deliveries and flushes, shown after each step *)
NextRun == /\ Len(log) < MaxEv
           /\ \E c \in {RandomElement(1..12)}, n \in {RandomElement(Names)}, gr \in {RandomElement(Groups)} :
              IF c = 1 THEN Flush ELSE Deliver(n, gr, KindOf(n), RandomElement(Times), RandomElement(BOOLEAN), 1)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Of(n) == SelectSeq(log, LAMBDA e : e.a = "add" /\ e.s.name = n)
Accepted(x) == SelectSeq(Of(x[1]), LAMBDA e : e.s.grp = x[2])
(* without an age threshold: the totals are those of everything delivered under the name's kind *)
Mine(n) == SelectSeq(Accepted(n), LAMBDA e : e.s.kind = data[n].kind)
RECURSIVE Vals(_)
Vals(es) == IF es = <<>> THEN <<>> ELSE Head(es).s.vals \o Vals(Tail(es))
TrueAggregate == age = 0 => \A n \in Series :
    /\ data[n].kind # "none" => data[n].kind = Of(n[1])[1].s.kind
    /\ CASE data[n].kind = "none" -> \A i \in 1..Len(Accepted(n)) : Accepted(n)[i].s.kind # Of(n[1])[1].s.kind
         [] data[n].kind = "set" -> data[n].vals = Mine(n)[Len(Mine(n))].s.vals
         [] data[n].kind = "sum" -> data[n].vals[1] = SumSeq(Vals(Mine(n)))
         [] OTHER -> data[n].vals = Vals(Mine(n))
OneKind == \A n \in Names : Cardinality(KindOfName(n)) <= 1
WindowBounded == \A n \in Series : Len(data[n].win) <= cap /\
    \A i, j \in 1..Len(data[n].win) : i < j => data[n].win[i].ts < data[n].win[j].ts
Step == Len(log') > Len(log)
Done == log'[Len(log')].a
ScrapeKeeps == [][Step /\ Done = "scrape" => data' = data]_vars
TotalsKept == [][\A n \in Series : data[n].kind \in {"summ", "hist"} =>
    data'[n].kind = data[n].kind /\ SubSeq(data'[n].vals, 1, Len(data[n].vals)) = data[n].vals]_vars
PurgedExact == [][Step /\ Done = "flush" => \A n \in Series :
    {data'[n].win[j].ts : j \in 1..Len(data'[n].win)} = {data[n].win[j].ts : j \in {i \in 1..Len(data[n].win) : Abs(data[n].win[i].ts - now) <= cap}}]_vars
PCase(d, lg) == "@@" \o ToJson([cap |-> cap, age |-> age, steps |-> lg, last |-> Show(d)])
Emit == PrintT(PCase(data, log)')
EmitDeep == Len(log) = MaxEv => PrintT(PCase(data, log))
EmitRun == PrintT("@@" \o ToJson([cap |-> cap, n |-> Len(log), step |-> IF log = <<>> THEN [x |-> 0] ELSE log[Len(log)], show |-> Show(data)]))
=============================================================================
