------------------------------ MODULE Console ------------------------------
(* The console sink: log lines are kept as they come, points in an aggregation *)
(* store (Buckets); each flush prints both and empties them, and the end of    *)
(* the sink is a flush.                                                        *)
EXTENDS Buckets
VARIABLES lines,      \* the lines kept, by number
          out         \* what each flush printed
cvars == <<vars, lines, out>>
CView == <<width, store, lines>>
CInit == Init /\ lines = <<>> /\ out = <<>>
Held == {[series |-> sr, pts |-> store[sr]] : sr \in {x \in Series : store[x] # <<>>}}
Line == /\ lines' = Append(lines, Len(log))
        /\ log' = Append(log, [a |-> "line", s |-> [n |-> Len(log)]])
        /\ UNCHANGED <<width, store, known, out>>
Deliver(sr, k, t, p, m) == Add(sr, k, t, p, m) /\ UNCHANGED <<lines, out>>
Flush == /\ out' = Append(out, [lines |-> lines, pts |-> Held])
         /\ lines' = <<>>
         /\ Reset
CNext == /\ Len(log) < MaxEv
         /\ \/ Line \/ Flush
            \/ \E sr \in Series, k \in Kinds, t \in Times, p \in Persists, m \in (IF WithMore THEN BOOLEAN ELSE {FALSE}) :
                 (m => ~Scalar(k)) /\ Deliver(sr, k, t, p, m)
CNextSim == /\ Len(log) < MaxEv
            /\ \E x \in {RandomElement(1..9)} :
                 CASE x = 1 -> Flush
                   [] x \in {2, 3} -> Line
                   [] OTHER -> Deliver(RandomElement(Series), RandomElement(Kinds), RandomElement(Times), RandomElement(Persists), RandomElement(BOOLEAN))
CSpec == CInit /\ [][CNext]_cvars
-----------------------------------------------------------------------------
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q).lines \o Cat(Tail(q))
Said == LET L == SelectSeq(log, LAMBDA e : e.a = "line") IN [j \in 1..Len(L) |-> L[j].s.n]
(* every line is printed once, in the order of arrival *)
LinesOnce == Cat(out) \o lines = Said
(* a flush prints the whole store, and leaves nothing but the gauges that go on *)
PrintsAll == [][Len(out') > Len(out) =>
     /\ out'[Len(out')].pts = Held
     /\ lines' = <<>>
     /\ \A sr \in Series : \A j \in 1..Len(store'[sr]) : store'[sr][j].persist /\ store'[sr][j].ts = Now]_cvars
CCase == "@@" \o ToJson([width |-> width, steps |-> log, out |-> Append(out, [lines |-> lines, pts |-> Held])])
CEmit == PrintT(CCase')
CEmitDeep == Len(log) = MaxEv => PrintT(CCase)
=============================================================================
