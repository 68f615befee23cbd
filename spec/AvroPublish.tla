---------------------------- MODULE AvroPublish ----------------------------
(* What a publish to the Avro source says, byte for byte: a fixed header, from *)
(* version 2 on a list of metadata pairs, and a container file.  A publish     *)
(* that breaks off, whose lengths do not fit or whose container's header       *)
(* cannot be read is refused.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Versions,    \* four bytes each
          Orders,      \* eight bytes each
          Metas,       \* sequences of <<key, value>>
          Containers,  \* byte sequences
          Schemas,     \* schemas known to be good
          Puts,        \* bytes written over others
          Mutate       \* which changes: subset of {"none", "cut", "put", "drop", "twice", "more"}
VARIABLES bytes, verdict, how
vars == <<bytes, verdict, how>>
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Pair(p) == <<Len(p[1])>> \o p[1] \o <<Len(p[2]) \div 256, Len(p[2]) % 256>> \o p[2]
Old(v) == v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] < 2
Encode(v, ord, meta, box) == v \o Zeros(4) \o <<9, 9, 9, 9, 9, 9, 9, 9>> \o ord
                             \o (IF Old(v) THEN <<>> ELSE <<Len(meta)>> \o Flat([i \in 1..Len(meta) |-> Pair(meta[i])]))
                             \o box
(* ---- reading ---- *)
Sub(s, a, n) == SubSeq(s, a, a + n - 1)
Has(s, a, n) == a + n - 1 <= Len(s)
(* metadata pairs from position a on *)
RECURSIVE Pairs(_, _, _, _)
Pairs(s, a, k, acc) ==
    IF k = 0 THEN [ok |-> TRUE, at |-> a, m |-> acc]
    ELSE IF ~Has(s, a, 1) \/ ~Has(s, a + 1, s[a] + 2) THEN [ok |-> FALSE]
    ELSE LET kl == s[a]
             b == a + 1 + kl
             vl == s[b] * 256 + s[b + 1]
         IN IF ~Has(s, b + 2, vl) THEN [ok |-> FALSE]
            ELSE Pairs(s, b + 2 + vl, k - 1, Append(acc, <<Sub(s, a + 1, kl), Sub(s, b + 2, vl)>>))
(* an Avro long; more than three bytes are more than any length here *)
Big == 100000
RECURSIVE Var(_, _, _, _)
Var(s, a, sh, acc) == IF ~Has(s, a, 1) THEN [ok |-> FALSE]
                      ELSE IF s[a] < 128 THEN [ok |-> TRUE, at |-> a + 1, v |-> IF sh > 16384 THEN Big ELSE acc + s[a] * sh]
                      ELSE Var(s, a + 1, IF sh > 16384 THEN sh ELSE sh * 128, acc + (s[a] - 128) * (IF sh > 16384 THEN 0 ELSE sh))
Long(s, a) == LET r == Var(s, a, 1, 0) IN
              IF ~r.ok THEN r ELSE [ok |-> TRUE, at |-> r.at, v |-> IF r.v >= Big THEN Big ELSE IF r.v % 2 = 0 THEN r.v \div 2 ELSE 0 - ((r.v + 1) \div 2)]
(* length, then that many bytes *)
Str(s, a) == LET r == Long(s, a) IN IF ~r.ok \/ r.v < 0 \/ r.v >= Big \/ ~Has(s, r.at, r.v) THEN [ok |-> FALSE]
             ELSE [ok |-> TRUE, at |-> r.at + r.v, b |-> Sub(s, r.at, r.v)]
Text(b) == \A i \in 1..Len(b) : b[i] < 128
RECURSIVE Entries(_, _, _, _)
Entries(s, a, k, acc) ==
    IF k = 0 THEN [ok |-> TRUE, at |-> a, m |-> acc]
    ELSE LET x == Str(s, a) IN
         IF ~x.ok \/ ~Text(x.b) THEN [ok |-> FALSE]
         ELSE LET y == Str(s, x.at) IN IF ~y.ok THEN [ok |-> FALSE] ELSE Entries(s, y.at, k - 1, Append(acc, <<x.b, y.b>>))
RECURSIVE Map(_, _, _)
Map(s, a, acc) ==
    LET n == Long(s, a) IN
    IF ~n.ok THEN [ok |-> FALSE]
    ELSE IF n.v = 0 THEN [ok |-> TRUE, at |-> n.at, m |-> acc]
    ELSE LET z == IF n.v < 0 THEN Long(s, n.at) ELSE [ok |-> TRUE, at |-> n.at]
         IN IF ~z.ok \/ n.v >= Big THEN [ok |-> FALSE]
            ELSE LET e == Entries(s, z.at, IF n.v < 0 THEN 0 - n.v ELSE n.v, acc) IN IF ~e.ok THEN e ELSE Map(s, e.at, e.m)
SchemaKey == <<97, 118, 114, 111, 46, 115, 99, 104, 101, 109, 97>>   \* avro.schema
CodecKey == <<97, 118, 114, 111, 46, 99, 111, 100, 101, 99>>         \* avro.codec
Codecs == {<<110, 117, 108, 108>>, <<100, 101, 102, 108, 97, 116, 101>>, <<115, 110, 97, 112, 112, 121>>}
Magic == <<79, 98, 106, 1>>
Get(m, k) == LET I == {i \in 1..Len(m) : m[i][1] = k} IN IF I = {} THEN [has |-> FALSE] ELSE [has |-> TRUE, v |-> m[CHOOSE i \in I : \A j \in I : j <= i][2]]
(* "yes", "no", or "?" where that depends on whether an unknown text is a schema *)
Container(s) ==
    IF ~Has(s, 1, 4) \/ Sub(s, 1, 4) # Magic THEN "no"
    ELSE LET m == Map(s, 5, <<>>) IN
         IF ~m.ok \/ ~Has(s, m.at, 16) THEN "no"
         ELSE LET sc == Get(m.m, SchemaKey)
                  co == Get(m.m, CodecKey)
              IN IF ~sc.has \/ (co.has /\ co.v \notin Codecs) THEN "no" ELSE IF sc.v \in Schemas THEN "yes" ELSE "?"
Refused == [k |-> "refused"]
Decode(s) ==
    IF ~Has(s, 1, 24) THEN Refused
    ELSE LET old == Old(Sub(s, 1, 4))
             ps == IF old THEN [ok |-> TRUE, at |-> 25, m |-> <<>>] ELSE IF ~Has(s, 25, 1) THEN [ok |-> FALSE] ELSE Pairs(s, 26, s[25], <<>>)
         IN IF ~ps.ok THEN Refused
            ELSE LET box == SubSeq(s, ps.at, Len(s)) IN
                 CASE Container(box) = "no" -> Refused
                   [] Container(box) = "?" -> [k |-> "?"]
                   [] OTHER -> [k |-> "forwarded", order |-> Sub(s, 17, 8), meta |-> ps.m, box |-> box]
(* ---- publishes: well-formed ones, and others that differ by one change ---- *)
Base == {Encode(v, o, m, b) : v \in Versions, o \in Orders, m \in Metas, b \in Containers}
Changes(s) == (IF "none" \in Mutate THEN {[h |-> "none", s |-> s]} ELSE {})
         \cup (IF "cut" \in Mutate THEN {[h |-> "cut", s |-> SubSeq(s, 1, i)] : i \in 0..(Len(s) - 1)} ELSE {})
         \cup (IF "put" \in Mutate THEN {[h |-> "put", s |-> [s EXCEPT ![i] = p]] : i \in (1..4) \cup (9..Len(s)), p \in Puts} ELSE {})
         \cup (IF "drop" \in Mutate THEN {[h |-> "drop", s |-> SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))] : i \in 9..Len(s)} ELSE {})
         \cup (IF "twice" \in Mutate THEN {[h |-> "twice", s |-> SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))] : i \in 9..Len(s)} ELSE {})
         \cup (IF "more" \in Mutate THEN {[h |-> "more", s |-> s \o <<1, 2, 255>>]} ELSE {})
Init == bytes = <<>> /\ verdict = [k |-> "none"] /\ how = ""
Publish(c) == bytes' = c.s /\ how' = c.h /\ verdict' = Decode(c.s)
Next == how = "" /\ \E s \in Base : \E c \in Changes(s) : Publish(c)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* what is forwarded is what was sent, and nothing is forwarded that does not end in a container *)
Faithful == verdict.k = "forwarded" =>
    /\ Len(verdict.box) <= Len(bytes) /\ SubSeq(bytes, Len(bytes) - Len(verdict.box) + 1, Len(bytes)) = verdict.box
    /\ SubSeq(verdict.box, 1, 4) = Magic /\ verdict.order = Sub(bytes, 17, 8)
    /\ LET again == Encode(Sub(bytes, 1, 4), verdict.order, verdict.meta, verdict.box)
       IN Len(again) = Len(bytes) /\ SubSeq(again, 17, Len(again)) = SubSeq(bytes, 17, Len(bytes))
WellFormed == how = "none" => verdict.k # "?"
Emit == PrintT("@@" \o ToJson([s |-> bytes', v |-> verdict', how |-> how']))
=============================================================================
