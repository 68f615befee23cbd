----------------------------- MODULE Wavefront -----------------------------
(* The Wavefront sink: an aggregation store (Buckets) whose content is written *)
(* as lines at each flush, with zeros around the silent gaps of series whose   *)
(* kind has padding on.                                                        *)
EXTENDS Buckets
CONSTANTS Pads,       \* possible sets of padded kinds
          Ages,       \* possible age thresholds (0: none)
          Breaks      \* whether the connection to the proxy breaks
VARIABLES pad, age,
          seen,       \* <<series, kind>> -> time of the latest line written
          out         \* per flush: the lines <<series, point>>
wvars == <<vars, pad, age, seen, out>>
WView == <<width, store, pad, age, seen>>
WInit == Init /\ pad \in Pads /\ age \in Ages /\ seen = <<>> /\ out = <<>>

Zero(p, t) == [p EXCEPT !.ts = t, !.vals = <<0>>, !.persist = FALSE]
Wide(a, b) == (b - a) \div width > 1
Last(key) == seen[key]
Known(key) == key \in DOMAIN seen
(* padded: has the gap since the last flush been dealt with? *)
RECURSIVE Lines(_, _, _, _)
Lines(sr, q, k, padded) ==
    IF k > Len(q) THEN <<>>
    ELSE LET p == q[k]
             key == <<sr, p.kind>>
             on == p.kind \in pad
             beyond == on /\ key \notin padded /\ Known(key) /\ p.ts > Last(key)
             behind == on /\ key \notin padded /\ Known(key) /\ p.ts <= Last(key)
             pre == IF beyond /\ Wide(Last(key), p.ts) THEN << Zero(p, Last(key) + 1), Zero(p, p.ts - 1) >> ELSE <<>>
             post == IF on /\ ~behind /\ k < Len(q) /\ q[k + 1].kind = p.kind /\ Wide(p.ts, q[k + 1].ts)
                     THEN << Zero(p, p.ts + 1), Zero(p, q[k + 1].ts - 1) >> ELSE <<>>
         IN pre \o <<p>> \o post \o Lines(sr, q, k + 1, IF beyond THEN padded \cup {key} ELSE padded)
RECURSIVE All(_)
All(S) == IF S = {} THEN <<>> ELSE LET sr == CHOOSE x \in S : TRUE
          L == Lines(sr, store[sr], 1, {}) IN [j \in 1..Len(L) |-> [series |-> sr, p |-> L[j]]] \o All(S \ {sr})
Keys == {<<sr, k>> : sr \in Series, k \in Kinds}
LatestNow(key) == LET T == {store[key[1]][j].ts : j \in {i \in 1..Len(store[key[1]]) : store[key[1]][i].kind = key[2]}}
                  IN IF T = {} THEN {} ELSE {CHOOSE t \in T : \A u \in T : u <= t}
NewSeen == LET f(key) == LatestNow(key) \cup (IF Known(key) THEN {Last(key)} ELSE {})
           IN [key \in {x \in Keys : f(x) # {}} |-> CHOOSE t \in f(key) : \A u \in f(key) : u <= t]

Young(t) == age = 0 \/ (t <= age /\ 0 - t <= age)
Deliver(sr, k, t, p, more) ==
    /\ UNCHANGED <<pad, age, seen, out>>
    /\ IF Young(t) THEN Add(sr, k, t, p, more)
       ELSE /\ log' = Append(log, [a |-> "add", s |-> [series |-> sr, kind |-> k, ts |-> t, persist |-> p, vals |-> <<Val(Len(log))>>]])
            /\ UNCHANGED <<width, store, known>>
Flush(how) ==
    /\ out' = Append(out, All(Series))
    /\ seen' = NewSeen
    /\ store' = [sr \in Series |-> LET q == store[sr] IN
              IF q # <<>> /\ q[Len(q)].persist THEN << [q[Len(q)] EXCEPT !.ts = Now] >> ELSE <<>>]
    /\ log' = Append(log, [a |-> how, s |-> [x |-> 0]])
    /\ UNCHANGED <<width, known, pad, age>>
(* with padding, a series keeps its kind *)
KindOf(sr) == LET ks == <<"set", "sum", "summ", "hist">> IN ks[(sr % 4) + 1]
MayBe(sr, k) == pad = {} \/ k = KindOf(sr)
WNext == /\ Len(log) < MaxEv
         /\ \/ \E sr \in Series, k \in Kinds, t \in Times, p \in Persists : MayBe(sr, k) /\ Deliver(sr, k, t, p, FALSE)
            \/ \E how \in (IF Breaks THEN {"flush", "break", "refuse"} ELSE {"flush"}) : Flush(how)
WNextSim == /\ Len(log) < MaxEv
            /\ IF RandomElement(1..5) = 1 THEN Flush(IF Breaks THEN RandomElement({"flush", "break", "refuse"}) ELSE "flush")
               ELSE \E sr \in {RandomElement(Series)} :
                    Deliver(sr, IF pad = {} THEN RandomElement(Kinds) ELSE KindOf(sr), RandomElement(Times), RandomElement(Persists), RandomElement(BOOLEAN))
WSpec == WInit /\ [][WNext]_wvars
-----------------------------------------------------------------------------
IsZero(x) == x.p.vals = <<0>>
(* every stored point is written once at the flush, and only zeros besides *)
WritesAll == [][Len(out') > Len(out) =>
     LET L == out'[Len(out')]
         R == SelectSeq(L, LAMBDA x : ~IsZero(x))
     IN /\ {R[j] : j \in 1..Len(R)} = UNION {{[series |-> sr, p |-> store[sr][j]] : j \in 1..Len(store[sr])} : sr \in Series}
        /\ Len(R) = Total(store, Series)]_wvars
(* zeros only for padded kinds; in the stretch beyond what was already written, no silent gap is left
   unbracketed and no zero lies outside a gap *)
Bracketed == [][Len(out') > Len(out) =>
     LET L == out'[Len(out')] IN
     \A sr \in Series, k \in Kinds :
        LET M == SelectSeq(L, LAMBDA x : x.series = sr /\ x.p.kind = k)
            key == <<sr, k>>
            from == IF Known(key) THEN {Last(key)} ELSE {}
            R == {M[j].p.ts : j \in {i \in 1..Len(M) : ~IsZero(M[i])}} \cup from
            Z == {M[j].p.ts : j \in {i \in 1..Len(M) : IsZero(M[i])}}
            Front == {t \in R : from = {} \/ \A f \in from : t >= f}
            Gaps == {<<a, b>> \in Front \X Front : a < b /\ (\A c \in Front : ~(a < c /\ c < b)) /\ Wide(a, b)}
        IN pad = {} \/ (IF k \notin pad THEN Z = {} ELSE Z = UNION {{g[1] + 1, g[2] - 1} : g \in Gaps})]_wvars
WCase(st, o, lg) == "@@" \o ToJson([width |-> width, pad |-> pad, age |-> age, steps |-> lg, out |-> o,
    rest |-> [x \in {"last"} |-> All(Series)]])
WEmit == PrintT(WCase(store, out, log)')
WEmitDeep == Len(log) = MaxEv => PrintT(WCase(store, out, log))
=============================================================================
