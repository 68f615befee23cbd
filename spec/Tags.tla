-------------------------------- MODULE Tags --------------------------------
(* The tags of metrics and log lines: operations on them, layering over the    *)
(* configured ones, and the identity they give.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, Objs, MaxSteps, MaxKeys  \* MaxKeys: keys in a configured or overlaid map
VARIABLES own,    \* object -> key -> value, 0 if it has none
          dflt,   \* configured: key -> value or 0
          log
vars == <<own, dflt, log>>
View == <<own, dflt>>
None == [k \in Keys |-> 0]
All == [Keys -> 0..Vals]
Size(m) == Cardinality({k \in Keys : m[k] # 0})
Maps == {m \in All : Size(m) <= MaxKeys}
Over(m, o) == [k \in Keys |-> IF m[k] # 0 THEN m[k] ELSE o[k]]   \* m's where it has one, o's otherwise
Shown(o) == Over(own[o], dflt)
Init == own = [o \in Objs |-> None] /\ dflt \in Maps /\ log = <<>>
RandomMap(z) == [k \in Keys |-> IF RandomElement(1..(3 + 0 * z)) = 1 THEN RandomElement(1..Vals) ELSE 0]
InitSim == own = [o \in Objs |-> None] /\ dflt \in {RandomMap(0)} /\ log = <<>>
Note(a, o, k, v, m, prev) == /\ log' = Append(log, [a |-> a, o |-> o, k |-> k, v |-> v, m |-> m, prev |-> prev])
                             /\ UNCHANGED dflt
Insert(o, k, v) == own' = [own EXCEPT ![o][k] = v] /\ Note("ins", o, k, v, None, own[o][k])
Overlay(o, k, v) == own' = [own EXCEPT ![o][k] = v] /\ Note("over", o, k, v, None, 0)
Remove(o, k) == own' = [own EXCEPT ![o][k] = 0] /\ Note("del", o, k, 0, None, own[o][k])
OverlayMap(o, m) == own' = [own EXCEPT ![o] = Over(m, own[o])] /\ Note("map", o, 0, 0, m, 0)
Next == /\ Len(log) < MaxSteps
        /\ \E o \in Objs : \/ \E k \in Keys, v \in 1..Vals : Insert(o, k, v) \/ Overlay(o, k, v)
                           \/ \E k \in Keys : Remove(o, k)
                           \/ \E m \in Maps : OverlayMap(o, m)
NextSim == /\ Len(log) < MaxSteps
           /\ \E o \in {RandomElement(Objs)}, k \in {RandomElement(Keys)}, v \in {RandomElement(1..Vals)}, d \in {RandomElement(1..10)} :
                IF d <= 3 THEN Insert(o, k, v) ELSE IF d <= 5 THEN Overlay(o, k, v) ELSE IF d <= 8 THEN Remove(o, k) ELSE \E m \in {RandomMap(Len(log))} : OverlayMap(o, m)
-----------------------------------------------------------------------------
Touches(st, o, k) == o = st.o /\ (IF st.a = "map" THEN st.m[k] # 0 ELSE k = st.k)
OthersUntouched == [][\A o \in Objs, k \in Keys : own'[o][k] # own[o][k] => Touches(log'[Len(log')], o, k)]_vars
OwnWins == \A o \in Objs, k \in Keys : Shown(o)[k] = IF own[o][k] # 0 THEN own[o][k] ELSE dflt[k]
Case(l, w, s) == "@@" \o ToJson([dflt |-> dflt, steps |-> l, own |-> w, shown |-> s])
Emit == PrintT(Case(log', own', [o \in Objs |-> Over(own'[o], dflt)]))
EmitDeep == Len(log) = MaxSteps => PrintT(Case(log, own, [o \in Objs |-> Shown(o)]))
=============================================================================
