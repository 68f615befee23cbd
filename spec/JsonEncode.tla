----------------------------- MODULE JsonEncode -----------------------------
(* The JSON encode filter: one document per log line, built from the parsed    *)
(* line (or its text), the line's fields and its metadata, in that precedence. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys,      \* keys used in documents, fields and tags
          FieldSets, TagSets, DefSets, \* sets of sets of keys
          Bodies,    \* <<"text">>, <<"bad">>, <<"array">>, <<"num">>, <<"obj", keys>>
          MaxEv
VARIABLES cfg, out, log
vars == <<cfg, out, log>>
Init == cfg \in [parse : BOOLEAN, defs : DefSets] /\ out = <<>> /\ log = <<>>
(* a value names where it comes from *)
From(src, ks) == [k \in ks |-> src \o "." \o k]
Over(f, g) == [k \in (DOMAIN f) \cup (DOMAIN g) |-> IF k \in DOMAIN f THEN f[k] ELSE g[k]]
Id == "e" \o ToString(Len(log))
Tags(tags) == Over(From("line", tags), From("default", cfg.defs))
Meta == [k \in {"time", "path", "tags"} |-> "meta." \o k]
Base(body) == IF cfg.parse /\ body.kind = "obj" THEN From("doc", body.keys) ELSE [k \in {"message"} |-> "text"]
Doc(body, fields) == Over(Base(body), Over(From("field", fields), Meta))
Line(body, fields, tags) ==
    /\ out' = Append(out, [kind |-> "doc", id |-> Id, doc |-> Doc(body, fields), tags |-> Tags(tags)])
    /\ log' = Append(log, [kind |-> "log", id |-> Id, body |-> body, fields |-> fields, tags |-> tags])
Other(kind) == /\ out' = Append(out, [kind |-> kind, id |-> Id])
               /\ log' = Append(log, [kind |-> kind, id |-> Id])
NextSim == /\ Len(log) < MaxEv /\ UNCHANGED cfg
           /\ IF RandomElement(1..4) < 4 THEN Line(RandomElement(Bodies), RandomElement(FieldSets), RandomElement(TagSets))
              ELSE Other(RandomElement({"tel", "raw", "flush"}))
Next == /\ Len(log) < MaxEv /\ UNCHANGED cfg
        /\ \/ \E b \in Bodies, f \in FieldSets, t \in TagSets : Line(b, f, t)
           \/ \E k \in {"tel", "raw", "flush"} : Other(k)
Spec == Init /\ [][Next]_vars
OneEach == Len(out) = Len(log) /\ \A k \in 1..Len(log) : out[k].id = log[k].id
Docs == {k \in 1..Len(out) : out[k].kind = "doc"}
NoKeyLost == \A k \in Docs :
    /\ log[k].fields \cup {"time", "path", "tags"} \subseteq DOMAIN out[k].doc
    /\ (cfg.parse /\ log[k].body.kind = "obj") => log[k].body.keys \subseteq DOMAIN out[k].doc
    /\ (~cfg.parse \/ log[k].body.kind # "obj") => out[k].doc["message"] = "text"
    /\ DOMAIN out[k].tags = log[k].tags \cup cfg.defs
Precedence == \A k \in Docs :
    /\ \A x \in log[k].tags : out[k].tags[x] = "line." \o x
    /\ \A x \in log[k].fields : (x \notin DOMAIN Base(log[k].body)) => out[k].doc[x] = "field." \o x
EmitAll == Len(log) = MaxEv => PrintT("@@" \o ToJson([cfg |-> cfg, steps |-> log, out |-> out]))
=============================================================================
