------------------------------- MODULE FileTail -------------------------------
(* The file source: paths it looks for, files that come and go there, writers   *)
(* that append in pieces, truncate, rename and remove, and rounds of reading.   *)
(* All pieces are of the same size, so that sizes and positions count pieces.   *)
(* A file first found holding something is read from its end; a path that was   *)
(* watched, from its start.                                                     *)
EXTENDS FileTailOps, FiniteSets, TLC, Json
CONSTANTS Paths, MaxPieces, MaxFiles, MaxSteps, Kinds, Truncs
VARIABLES body,    \* file -> its pieces
          at, old, \* path -> file there (0: none), file that was there before
          w,       \* path -> the watcher: reader (file or 0), id, pos, prev, part, reopen, alive
          gone,    \* paths that were watched and vanished
          out,     \* path -> lines handed out: sequences of pieces
          late,    \* file -> how much it held when found first and read from its end
          log, fresh   \* fresh: nothing has been written since the last round
vars == <<body, at, old, w, gone, out, late, log, fresh>>
Files == DOMAIN body
NextId == 1 + Len(SelectSeq(log, LAMBDA e : e.a \in {"append", "old"})) + Cardinality(Paths)
-----------------------------------------------------------------------------
Note(a, p, k, n) == log' = Append(log, [a |-> a, p |-> p, k |-> k, n |-> n]) /\ fresh' = FALSE
\* n: the number of the piece written, or what is left of the file
Write(f, k) == body' = [body EXCEPT ![f] = Append(@, [id |-> NextId, k |-> k])]
CanWrite(f) == f # 0 /\ Len(body[f]) < MaxPieces
AppendTo(p, k) == CanWrite(at[p]) /\ Write(at[p], k) /\ Note("append", p, k, NextId) /\ UNCHANGED <<at, old, w, gone, out, late>>
AppendOld(p, k) == old[p] # at[p] /\ CanWrite(old[p]) /\ Write(old[p], k) /\ Note("old", p, k, NextId) /\ UNCHANGED <<at, old, w, gone, out, late>>
Truncate(p, n) == fresh /\ at[p] # 0 /\ n < Len(body[at[p]]) /\ body' = [body EXCEPT ![at[p]] = SubSeq(@, 1, n)] /\ Note("trunc", p, "", n) /\ UNCHANGED <<at, old, w, gone, out, late>>
Away(p, a) == at[p] # 0 /\ old' = [old EXCEPT ![p] = at[p]] /\ at' = [at EXCEPT ![p] = 0] /\ Note(a, p, "", 0) /\ UNCHANGED <<body, w, gone, out, late>>
Create(p) == at[p] = 0 /\ Len(body) < MaxFiles /\ body' = Append(body, <<>>) /\ at' = [at EXCEPT ![p] = Len(body) + 1] /\ Note("create", p, "", 0) /\ UNCHANGED <<old, w, gone, out, late>>
\* the next file takes the place of this one at once
Replace(p) == at[p] # 0 /\ Len(body) < MaxFiles /\ body' = Append(body, <<>>) /\ old' = [old EXCEPT ![p] = at[p]] /\ at' = [at EXCEPT ![p] = Len(body) + 1] /\ Note("replace", p, "", 0) /\ UNCHANGED <<w, gone, out, late>>
Settle == /\ ~fresh /\ fresh' = TRUE
          /\ LET R == [p \in Paths |-> Rounds(w[p], p \in gone, <<>>, at[p], body)] IN
             w' = [p \in Paths |-> R[p].x] /\ gone' = {p \in Paths : R[p].g} /\ out' = [p \in Paths |-> out[p] \o R[p].out]
          /\ late' = late \cup {<<at[p], Len(body[at[p]])>> : p \in {q \in Paths : ~w[q].alive /\ at[q] # 0 /\ q \notin gone}}
          /\ log' = Append(log, [a |-> "settle", p |-> "", k |-> "", n |-> 0])
          /\ UNCHANGED <<body, at, old>>
\* at the start a path may have a file that holds something; the first rounds are over
Start(has, full) ==
  LET order == CHOOSE s \in [1..Cardinality(has) -> has] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j IN
  /\ body = [i \in DOMAIN order |-> IF order[i] \in full THEN <<[id |-> i, k |-> "end"]>> ELSE <<>>]
  /\ at = [p \in Paths |-> IF p \in has THEN CHOOSE i \in DOMAIN order : order[i] = p ELSE 0]
  /\ old = [p \in Paths |-> 0] /\ gone = {} /\ out = [p \in Paths |-> <<>>] /\ log = <<>> /\ fresh = TRUE /\ late = {}
  /\ w = [p \in Paths |-> Rounds(NoW, FALSE, <<>>, at[p], body).x]
Init == \E has \in SUBSET Paths : \E full \in SUBSET has : Start(has, full)
Next == /\ Len(log) < MaxSteps
        /\ \/ \E p \in Paths, k \in Kinds : AppendTo(p, k) \/ AppendOld(p, k)
           \/ \E p \in Paths, n \in Truncs : Truncate(p, n)
           \/ \E p \in Paths : Away(p, "away") \/ Away(p, "del") \/ Create(p) \/ Replace(p)
           \/ Settle
RE(S) == RandomElement(S)
NextSim == /\ Len(log) < MaxSteps
           /\ IF ~fresh /\ Len(log) = MaxSteps - 1 THEN Settle
              ELSE \E d \in {RE(1..24)}, p \in {RE(Paths)}, k \in {RE(Kinds)} :
                CASE d <= 7 /\ CanWrite(at[p]) -> AppendTo(p, k)
                  [] d \in {8, 9} /\ old[p] # at[p] /\ CanWrite(old[p]) -> AppendOld(p, k)
                  [] d \in {10, 11} /\ fresh /\ at[p] # 0 /\ body[at[p]] # <<>> /\ Truncs # {} -> \E n \in {RE(0..(Len(body[at[p]]) - 1))} : Truncate(p, n)
                  [] d \in 12..14 /\ at[p] # 0 /\ Len(body) < MaxFiles -> \E a \in {RE({"away", "del", "replace"})} : IF a = "replace" THEN Replace(p) ELSE Away(p, a)
                  [] at[p] = 0 /\ Len(body) < MaxFiles -> Create(p)
                  [] OTHER -> IF ~fresh THEN Settle ELSE IF CanWrite(at[p]) THEN AppendTo(p, k) ELSE UNCHANGED <<body, at, old, w, gone, out, late, fresh>> /\ log' = Append(log, [a |-> "settle", p |-> "", k |-> "", n |-> 0])
\* the last entry of a finished history is a settle; the filler above adds one where nothing else is possible
-----------------------------------------------------------------------------
Members(s) == {s[i] : i \in DOMAIN s}
Handed == UNION {Members(out[p]) : p \in Paths}
\* without truncation: nothing twice, nothing torn, everything in the order it was written
Whole(l) == \E i \in Files : \E a, b \in 0..Len(body[i]) : a < b /\ l = Ids(SelectSeq(SubSeq(body[i], a + 1, b), LAMBDA x : x.k # "blank"))
            /\ (a = 0 \/ body[i][a].k # "more" \/ <<i, a>> \in late) /\ \A j \in (a + 1)..(b - 1) : body[i][j].k = "more"
Undivided == Truncs = {} => \A p \in Paths : \A i \in DOMAIN out[p] : Whole(out[p][i])
Once == Truncs = {} => \A p \in Paths : \A i, j \in DOMAIN out[p] : i < j => Members(out[p][i]) \cap Members(out[p][j]) = {}
\* (ids grow; a file's lines come in order)
FileOf(l) == CHOOSE i \in Files : \E j \in DOMAIN body[i] : body[i][j].id = l[1]
InOrder == Truncs = {} => \A p \in Paths : \A i, j \in DOMAIN out[p] : i < j /\ FileOf(out[p][i]) = FileOf(out[p][j]) => out[p][i][1] < out[p][j][1]
\* a round hands out all complete lines of the file it was watching and of the file that is there now if it follows one it watched
Complete == [][(Truncs = {} /\ Len(log') > Len(log) /\ log'[Len(log')].a = "settle") =>
  \A p \in Paths :
    /\ w[p].alive => Members(LinesOf(SubSeq(body[w[p].rd], w[p].pos + 1, Len(body[w[p].rd])), w[p].part)) \subseteq Members(out'[p])
    /\ (at[p] # 0 /\ (w[p].alive \/ p \in gone) /\ (w[p].alive => w[p].rd # at[p])) => Members(LinesOf(body[at[p]], <<>>)) \subseteq Members(out'[p])]_vars
TypeOK == \A p \in Paths : w[p].alive => w[p].rd # 0
SView == <<body, at, old, w, gone, late, fresh>>
VARIABLES init
IView == <<SView, init>>
FInit == Init /\ init = [p \in Paths |-> IF at[p] = 0 THEN -1 ELSE Len(body[at[p]])]
FNext == Next /\ UNCHANGED init
FNextSim == NextSim /\ UNCHANGED init
Say(l, o) == PrintT("@@" \o ToJson([init |-> init, steps |-> l, out |-> o]))
\* every transition, closed by a round
Emit == LET R(p) == Rounds(w'[p], p \in gone', <<>>, at'[p], body') IN Say(log', [p \in Paths |-> out'[p] \o R(p).out])
EmitDeep == Len(log) = MaxSteps => LET R(p) == Rounds(w[p], p \in gone, <<>>, at[p], body) IN Say(log, [p \in Paths |-> out[p] \o R(p).out])
=============================================================================
