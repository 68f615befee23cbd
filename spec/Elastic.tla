-------------------------------- MODULE Elastic --------------------------------
(* The Elasticsearch sink: log lines wait in order, each flush sends all of them  *)
(* in one bulk request; the reply takes or refuses each by its id, or there is   *)
(* no usable reply.  A line refused Limit times is given up.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Limit, MaxLines, MaxSteps,
          Whole      \* replies that are about no line in particular
VARIABLES n,         \* lines delivered
          buf,       \* those waiting: [id, refused]
          stored, given, alive, log
vars == <<n, buf, stored, given, alive, log>>
Init == n = 0 /\ buf = <<>> /\ stored = {} /\ given = {} /\ alive = TRUE /\ log = <<>>
Bound == IF Limit = 0 THEN 1 ELSE Limit
Ids == {buf[i].id : i \in DOMAIN buf}
Deliver == alive /\ n < MaxLines /\ n' = n + 1 /\ buf' = Append(buf, [id |-> n + 1, refused |-> 0]) /\ UNCHANGED <<stored, given, alive>>
\* the lines taken and refused; others are not mentioned
Answered(ok, no) == LET left(b) == b.id \notin ok /\ (b.id \in no => b.refused + 1 < Bound)
                        told == [i \in DOMAIN buf |-> IF buf[i].id \in no THEN [buf[i] EXCEPT !.refused = @ + 1] ELSE buf[i]]
                        keep == {i \in DOMAIN buf : left(buf[i])}
                        nth(k) == CHOOSE i \in keep : Cardinality({j \in keep : j <= i}) = k
                    IN /\ buf' = [k \in 1..Cardinality(keep) |-> told[nth(k)]]
                       /\ stored' = stored \cup ok
                       /\ given' = given \cup {buf[i].id : i \in {j \in DOMAIN buf : ~left(buf[j]) /\ buf[j].id \in no}}
Flush(last) == alive /\ alive' = ~last /\ UNCHANGED n
Items(ok, no) == buf # <<>> /\ Answered(ok, no)
Nothing == UNCHANGED <<buf, stored, given>>
Next == UNCHANGED log /\ (Deliver \/ \E last \in BOOLEAN : Flush(last) /\ (Nothing \/ \E ok \in SUBSET Ids : \E no \in SUBSET (Ids \ ok) : Items(ok, no)))
\* every request is at last answered for every line
Fair == Init /\ [][Next]_vars /\ WF_vars(UNCHANGED log /\ Flush(FALSE) /\ \E ok \in SUBSET Ids : Items(ok, Ids \ ok))
-----------------------------------------------------------------------------
Accounted == 1..n = (Ids \cup stored \cup given) /\ Ids \cap (stored \cup given) = {} /\ stored \cap given = {}
InOrder == \A i, j \in DOMAIN buf : i < j => buf[i].id < buf[j].id
NotTooOften == \A i \in DOMAIN buf : buf[i].refused < Bound
\* only a line that was refused often enough is given up, and only an answer moves a line
GivenUp == [][\A i \in DOMAIN buf : buf[i].id \in given' => buf[i].refused + 1 = Bound]_vars
Empties == \A i \in 1..MaxLines : (i \in Ids /\ alive) ~> (i \notin Ids \/ ~alive)
-----------------------------------------------------------------------------
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o s : s \in Seqs(S \ {x})} : x \in S}
Pos(id) == CHOOSE i \in DOMAIN buf : buf[i].id = id
Order == [i \in DOMAIN buf |-> buf[i].id]
SDeliver == Deliver /\ log' = Append(log, [a |-> "add", id |-> n + 1])
\* items: [position in the request, taken?] in the order of the reply
Entry(last, how, items) == [a |-> IF last THEN "stop" ELSE "flush", sent |-> Order, how |-> how, items |-> items, left |-> Len(buf'), stored |-> Cardinality(stored' \ stored), gone |-> Cardinality(given' \ given)]
SWhole(last, w) == Flush(last) /\ Nothing /\ log' = Append(log, Entry(last, w, <<>>))
SItems(last, ok, no, sq) == Flush(last) /\ Items(ok, no) /\ log' = Append(log, Entry(last, "items", [i \in DOMAIN sq |-> [pos |-> Pos(sq[i]), ok |-> sq[i] \in ok]]))
SNext == /\ Len(log) < MaxSteps
         /\ \/ SDeliver
            \/ \E last \in BOOLEAN : \/ \E w \in Whole : SWhole(last, w)
                                     \/ \E ok \in SUBSET Ids : \E no \in SUBSET (Ids \ ok) : \E sq \in Seqs(ok \cup no) : SItems(last, ok, no, sq)
RE(S) == RandomElement(S)
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == RE(S) IN <<x>> \o Shuffle(S \ {x})
Some(S, k) == {x \in S : RE(1..10) <= k}
SNextSim == /\ Len(log) < MaxSteps /\ alive
            /\ \E d \in {RE(1..8)}, last \in {Len(log) = MaxSteps - 1} :
               IF (d > 4 /\ ~last) \/ (buf = <<>> /\ ~last) THEN SDeliver
               ELSE IF d = 1 \/ buf = <<>> THEN \E w \in {RE(Whole)} : SWhole(last, w)
               ELSE \E all \in {Some(Ids, RE({10, 10, 10, 7}))} : \E ok \in {Some(all, RE({0, 3, 7, 10}))} : \E sq \in {IF RE(1..3) = 1 THEN Shuffle(all) ELSE SelectSeq(Order, LAMBDA x : x \in all)} : SItems(last, ok, all \ ok, sq)
\* nothing but refusals
SNextNo == /\ Len(log) < MaxSteps
           /\ IF n < MaxLines THEN SDeliver ELSE IF buf # <<>> /\ Len(log) < MaxSteps - 1 THEN SItems(FALSE, {}, Ids, Order) ELSE \E w \in Whole : SWhole(Len(log) = MaxSteps - 1, w)
SView == <<n, buf, alive>>
Say(l) == PrintT("@@" \o ToJson(l))
Emit == log'[Len(log')].a # "add" => Say(log')
EmitDeep == Len(log) = MaxSteps => Say(log)
=============================================================================
