----------------------------- MODULE FileTailOps ----------------------------
(* What one call for a line, a round and rounds of reading do with one path.   *)
EXTENDS Integers, Sequences
(* the watcher of a path: reader (file or 0), position and last size in pieces,*)
(* what it has of an unended line, whether to open anew at the next call       *)
NoW == [alive |-> FALSE, rd |-> 0, pos |-> 0, prev |-> 0, part |-> <<>>, reopen |-> FALSE]
(* one call for a line; there is the file at the path now, B the bodies *)
Open(x, there, B) == IF there = 0 THEN [x EXCEPT !.rd = 0, !.reopen = FALSE]
                     ELSE [x EXCEPT !.rd = there, !.pos = 0, !.prev = Len(B[there]), !.reopen = FALSE]
Ids(q) == [i \in DOMAIN q |-> q[i].id]
Bad(q) == \E i \in DOMAIN q : q[i].k = "bad"
Line(q) == IF q = <<>> \/ Bad(q) THEN <<>> ELSE <<Ids(q)>>   \* what comes of a line: itself, or nothing
\* [x: watcher, out: at most one line, more: whether the round goes on]
RECURSIVE Fill(_, _, _, _)
Fill(x, B, n, there) ==
  IF x.pos >= Len(B[x.rd]) THEN
     IF n = 0 /\ there # x.rd THEN [x |-> [x EXCEPT !.reopen = TRUE, !.part = <<>>], out |-> Line(x.part), more |-> x.part # <<>> /\ ~Bad(x.part)]
     ELSE [x |-> x, out |-> <<>>, more |-> FALSE]
  ELSE LET p == B[x.rd][x.pos + 1] y == [x EXCEPT !.pos = @ + 1] IN
       CASE p.k = "more" -> Fill([y EXCEPT !.part = Append(@, p)], B, n + 1, there)
         [] p.k \in {"end", "bad"} -> [x |-> [y EXCEPT !.part = <<>>], out |-> Line(Append(x.part, p)), more |-> p.k = "end" /\ ~Bad(x.part)]
         [] p.k = "blank" -> IF x.part = <<>> THEN Fill(y, B, 0, there)
                             ELSE [x |-> [y EXCEPT !.part = <<>>], out |-> Line(x.part), more |-> ~Bad(x.part)]
Call(x, there, B) ==
  LET a == IF x.reopen THEN Open(x, there, B) ELSE x IN
  IF a.rd = 0 THEN [x |-> Open(a, there, B), out |-> <<>>, more |-> FALSE]
  ELSE LET cur == Len(B[a.rd]) b == IF a.prev > cur THEN [a EXCEPT !.pos = 0, !.part = <<>>] ELSE a
       IN Fill([b EXCEPT !.prev = cur], B, 0, there)
RECURSIVE Calls(_, _, _, _)
Calls(x, o, there, B) == LET r == Call(x, there, B) IN IF r.more THEN Calls(r.x, o \o r.out, there, B) ELSE [x |-> r.x, out |-> o \o r.out]
Found(x, g, there, B) == IF x.alive \/ there = 0 THEN x
                         ELSE IF g THEN [NoW EXCEPT !.alive = TRUE, !.rd = there, !.prev = Len(B[there])]
                         ELSE [NoW EXCEPT !.alive = TRUE, !.rd = there, !.pos = Len(B[there]), !.prev = Len(B[there])]
\* a round of one path: [x, g, out]
Round(x, g, there, B) ==
  LET f == Found(x, g, there, B) IN
  IF ~f.alive THEN [x |-> f, g |-> g, out |-> <<>>]
  ELSE LET r == Calls(f, <<>>, there, B) dead == r.x.rd = 0
       IN [x |-> IF dead THEN NoW ELSE r.x, g |-> (g /\ ~(~x.alive /\ there # 0)) \/ dead, out |-> r.out]
RECURSIVE Rounds(_, _, _, _, _)
Rounds(x, g, o, there, B) == LET r == Round(x, g, there, B) IN
  IF r.x = x /\ r.g = g /\ r.out = <<>> THEN [x |-> x, g |-> g, out |-> o] ELSE Rounds(r.x, r.g, o \o r.out, there, B)
(* the complete lines in a file after its first n pieces *)
RECURSIVE LinesOf(_, _)
LinesOf(q, part) == IF q = <<>> THEN <<>>
  ELSE CASE Head(q).k = "more" -> LinesOf(Tail(q), Append(part, Head(q)))
         [] Head(q).k = "blank" -> Line(part) \o LinesOf(Tail(q), <<>>)
         [] OTHER -> Line(Append(part, Head(q))) \o LinesOf(Tail(q), <<>>)
=============================================================================
