------------------------------- MODULE Config -------------------------------
(* What a configuration file means.  A file is built up option by option; its  *)
(* meaning is the set of stages in use with the effective value of each of     *)
(* their options, or a refusal.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Insts,      \* stages that may be configured: <<kind, n>>
          Vals,       \* values an option may take (of values proper); 0: not given
          Bad,        \* whether an option may be given a value of another type (9) or out of range (8)
          GlobalOpts, \* global options that may be given
          MaxOps
VARIABLES opts,       \* stage -> option -> value, for the stages that are in the file
          glob, n
vars == <<opts, glob, n>>
View == <<opts, glob>>

Opts(k) == CASE k = "filters.delay" -> {"tolerance", "forwards"}
             [] k = "filters.flush_boundary" -> {"tolerance", "forwards"}
             [] k = "filters.json_encode" -> {"parse_line", "forwards"}
             [] k = "filters.programmable" -> {"script", "forwards"}
             [] k = "sinks.null" -> {}
             [] k = "sinks.console" -> {"bin_width", "flush_interval"}
             [] k = "sinks.wavefront" -> {"bin_width", "flush_interval", "host", "port", "age_threshold", "percentiles", "padding"}
             [] k = "sinks.influxdb" -> {"flush_interval", "host", "port", "secure", "db"}
             [] k = "sinks.prometheus" -> {"host", "port", "age_threshold", "capacity_in_seconds"}
             [] k = "sinks.elasticsearch" -> {"flush_interval", "host", "port", "secure", "index-prefix", "index_type", "delivery_attempt_limit"}
             [] k = "sinks.native" -> {"flush_interval", "host", "port"}
             [] k = "sinks.kafka" -> {"enabled", "topic", "brokers", "librdkafka", "flush_interval", "max_message_bytes"}
             [] k = "sources.files" -> {"path", "forwards", "max_read_bytes"}
             [] k = "sources.statsd" -> {"enabled", "host", "port", "forwards", "mapping", "summarize_error_bound"}
             [] k = "sources.graphite" -> {"enabled", "host", "port", "forwards"}
             [] k = "sources.avro" -> {"enabled", "host", "port", "forwards"}
             [] k = "sources.native" -> {"enabled", "ip", "port", "forwards"}
             [] k = "sources.internal" -> {"forwards"}
(* without these a stage is left out *)
Needed(k) == CASE k \in {"filters.delay", "filters.flush_boundary"} -> {"tolerance"}
               [] k = "filters.programmable" -> {"script"}
               [] k = "sinks.kafka" -> {"topic", "brokers"}
               [] k = "sources.files" -> {"path"}
               [] OTHER -> {}
(* without these the file is refused *)
Demanded(k) == IF k \in {"sources.statsd", "sources.graphite", "sources.avro"} THEN {"forwards"} ELSE {}
(* what a stage takes from the global options *)
Tagged(k) == k \in {"filters.json_encode", "filters.programmable", "sinks.console", "sinks.wavefront", "sinks.influxdb", "sinks.prometheus", "sinks.elasticsearch", "sinks.native"}
Scripted(k) == k = "filters.programmable"
Wrong == {8, 9}
(* options whose values are numbers of a limited range *)
Numeric(k, o) == o \in {"port", "age_threshold", "capacity_in_seconds", "delivery_attempt_limit", "flush_interval", "max_message_bytes", "max_read_bytes"}
                 \/ (k = "filters.flush_boundary" /\ o = "tolerance")
NumericGlobal(g) == g \in {"flush-interval", "max-hopper-in-memory-bytes", "max-hopper-queue-bytes", "max-hopper-queue-files"}
No == 2     \* the second value of "enabled"

Kind(i) == i[1]
Present == DOMAIN opts
Given(i, o) == opts[i][o] # 0
InUse == {i \in Present : ("enabled" \in Opts(Kind(i)) => opts[i]["enabled"] # No) /\ \A o \in Needed(Kind(i)) : Given(i, o)}
Refused == \/ \E i \in InUse : (\E o \in Opts(Kind(i)) : opts[i][o] \in Wrong) \/ (\E o \in Demanded(Kind(i)) : ~Given(i, o))
           \/ \E g \in DOMAIN glob : glob[g] \in Wrong
Option(i, o) == IF Given(i, o) THEN <<"own", opts[i][o]>>
                ELSE IF o = "flush_interval" THEN <<"global", glob["flush-interval"]>>
                ELSE <<"default", 0>>
Effective(i) == [o \in (Opts(Kind(i)) \ {"enabled"}) \cup (IF Tagged(Kind(i)) THEN {"tags"} ELSE {}) \cup (IF Scripted(Kind(i)) THEN {"scripts"} ELSE {}) |->
    IF o = "tags" THEN <<"global", glob["tags"]>> ELSE IF o = "scripts" THEN <<"global", glob["scripts-directory"]>> ELSE Option(i, o)]
Meaning == [i \in InUse |-> Effective(i)]

AllGlobals == {"max-hopper-in-memory-bytes", "max-hopper-queue-bytes", "max-hopper-queue-files", "data-directory", "scripts-directory", "flush-interval", "tags"}
Init == opts = <<>> /\ glob = [g \in AllGlobals |-> 0] /\ n = 0
Step == n < MaxOps /\ n' = n + 1
AddStage(i) == i \notin Present /\ opts' = [j \in Present \cup {i} |-> IF j = i THEN [o \in Opts(Kind(i)) |-> 0] ELSE opts[j]] /\ UNCHANGED glob
(* a wrong value is given last, and to a stage that is complete: which complaint comes first does not matter *)
Clean == ~Refused \/ \A i \in InUse : \A o \in Opts(Kind(i)) : opts[i][o] \notin Wrong
GiveOption(i, o, v) == /\ opts[i][o] = 0
                       /\ v \in Wrong => Clean /\ i \in InUse
                       /\ v = 8 => Numeric(Kind(i), o)
                       /\ opts' = [opts EXCEPT ![i][o] = v] /\ UNCHANGED glob
GiveGlobal(g, v) == glob[g] = 0 /\ (v \in Wrong => Clean) /\ (v = 8 => NumericGlobal(g)) /\ glob' = [glob EXCEPT ![g] = v] /\ UNCHANGED opts
Proper == Clean /\ \A g \in AllGlobals : glob[g] \notin Wrong
Given1 == Vals \cup (IF Bad THEN {8, 9} ELSE {})
Next == /\ Step /\ Proper
        /\ \/ \E i \in Insts : AddStage(i)
           \/ \E i \in Present : \E o \in Opts(Kind(i)), v \in Given1 : GiveOption(i, o, v)
           \/ \E g \in GlobalOpts, v \in Given1 : GiveGlobal(g, v)
Rare == IF Bad /\ RandomElement(1..40) = 1 THEN RandomElement({8, 9}) ELSE RandomElement(Vals)
NextSim == /\ Step /\ Proper
           /\ \E x \in {RandomElement(1..12)} :
              CASE x <= 2 /\ Insts \ Present # {} -> \E i \in {RandomElement(Insts \ Present)} : AddStage(i)
                [] x = 3 /\ (\E g \in GlobalOpts : glob[g] = 0) -> \E g \in {RandomElement({h \in GlobalOpts : glob[h] = 0})}, v \in {Rare} : GiveGlobal(g, IF v = 8 /\ ~NumericGlobal(g) THEN 1 ELSE v)
                [] OTHER -> LET Open == {p \in Present \X UNION {Opts(Kind(i)) : i \in Present} : p[2] \in Opts(Kind(p[1])) /\ opts[p[1]][p[2]] = 0}
                            IN IF Open = {} THEN UNCHANGED <<opts, glob>>
                               ELSE \E p \in {RandomElement(Open)}, v \in {Rare} :
                                    GiveOption(p[1], p[2], IF v \in Wrong /\ ~(Clean /\ p[1] \in InUse /\ (v = 8 => Numeric(Kind(p[1]), p[2]))) THEN 1 ELSE v)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* one option changes one setting, and a global one only what inherits it *)
Local == [][\A i \in InUse : i \in InUse' =>
      \A o \in DOMAIN Effective(i) : Effective(i)[o] # Effective(i)'[o] =>
          \/ opts[i] # opts'[i] /\ opts[i][o] # opts'[i][o]
          \/ Effective(i)[o][1] = "global" /\ glob # glob' /\ (o \in Opts(Kind(i)) => ~Given(i, o))]_vars
Own == \A i \in InUse : \A o \in Opts(Kind(i)) \ {"enabled"} : Given(i, o) => Effective(i)[o] = <<"own", opts[i][o]>>
Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}
Flat == {[at |-> i, opts |-> Pairs(opts[i])] : i \in Present}
Means == {[at |-> i, opts |-> Pairs(Effective(i))] : i \in InUse}
Case == "@@" \o ToJson([stages |-> Flat, glob |-> Pairs(glob), refused |-> Refused, means |-> IF Refused THEN {} ELSE Means])
Emit == PrintT(Case)
EmitDeep == n = MaxOps \/ Refused => PrintT(Case)
=============================================================================
