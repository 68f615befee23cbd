---------------------------- MODULE Programmable ----------------------------
(* The programmable filter: a user script is run on a payload for each metric, *)
(* log line and fresh pulse.  A script is a sequence of payload operations.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Progs,      \* set of programs (sequences of operations)
          Inputs,     \* set of inputs: [kind |-> "metric"|"log"|"pulse"|"raw", i |-> pulse number]
          MaxEv,
          Missing     \* subset of {"metric","log","pulse"}: functions the script does not define
VARIABLES last,       \* the last pulse number handled
          out, log
vars == <<last, out, log>>

(* global tags of the filter: "g" -> "dg", "k" -> "dk" *)
Defaults == [t \in {"g", "k"} |-> "d" \o t]
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Empty == [x \in {} |-> ""]

NewMetric(id) == [name |-> "n" \o id, tags |-> Put(Empty, "k", "own")]
NewLog(id) == [value |-> "v" \o id, path |-> "p" \o id, tags |-> Put(Empty, "k", "own"), fields |-> Put(Empty, "f", "own")]

Blank == [ms |-> <<>>, ls |-> <<>>, obs |-> <<>>, ok |-> TRUE]
InitPayload(in, id) == CASE in.kind = "metric" -> [Blank EXCEPT !.ms = <<NewMetric(id)>>]
                         [] in.kind = "log" -> [Blank EXCEPT !.ls = <<NewLog(id)>>]
                         [] OTHER -> Blank

(* positive indices count from the front, from 1; negative ones from the back *)
Idx(n, len) == IF n < 0 THEN len + n + 1 ELSE n
Valid(n, len) == Idx(n, len) >= 1 /\ Idx(n, len) <= len
Fail(p) == [p EXCEPT !.ok = FALSE]
Seen(p, x) == [p EXCEPT !.obs = Append(@, x)]

(* one operation on the payload *)
Do(p, op) ==
    LET mi == Idx(op.i, Len(p.ms))
        li == Idx(op.i, Len(p.ls))
        M == Valid(op.i, Len(p.ms))
        L == Valid(op.i, Len(p.ls))
    IN CASE ~p.ok -> p
         [] op.op = "fail" -> Fail(p)
         [] op.op = "push_metric" -> [p EXCEPT !.ms = Append(@, [name |-> op.a, tags |-> Defaults])]
         [] op.op = "push_log" -> [p EXCEPT !.ls = Append(@, [value |-> op.a, path |-> "it", tags |-> Defaults, fields |-> Empty])]
         [] op.op = "clear_metrics" -> [p EXCEPT !.ms = <<>>]
         [] op.op = "clear_logs" -> [p EXCEPT !.ls = <<>>]
         [] op.op = "set_metric_name" -> IF M THEN [p EXCEPT !.ms[mi].name = op.a] ELSE Fail(p)
         [] op.op = "metric_name" -> IF M THEN Seen(p, p.ms[mi].name) ELSE Fail(p)
         [] op.op = "metric_tag_value" -> IF M THEN Seen(p, Get(p.ms[mi].tags, op.a, Get(Defaults, op.a, "nil"))) ELSE Fail(p)
         [] op.op = "metric_set_tag" -> IF M THEN Seen([p EXCEPT !.ms[mi].tags = Put(@, op.a, op.b)], Get(p.ms[mi].tags, op.a, "nil")) ELSE Fail(p)
         [] op.op = "metric_remove_tag" -> IF M THEN Seen([p EXCEPT !.ms[mi].tags = Del(@, op.a)], Get(p.ms[mi].tags, op.a, "nil")) ELSE Fail(p)
         [] op.op = "log_value" -> IF L THEN Seen(p, p.ls[li].value) ELSE Fail(p)
         [] op.op = "log_path" -> IF L THEN Seen(p, p.ls[li].path) ELSE Fail(p)
         [] op.op = "log_set_value" -> IF L THEN [p EXCEPT !.ls[li].value = op.a] ELSE Fail(p)
         [] op.op = "log_tag_value" -> IF L THEN Seen(p, Get(p.ls[li].tags, op.a, Get(Defaults, op.a, "nil"))) ELSE Fail(p)
         [] op.op = "log_set_tag" -> IF L THEN Seen([p EXCEPT !.ls[li].tags = Put(@, op.a, op.b)], Get(p.ls[li].tags, op.a, "nil")) ELSE Fail(p)
         [] op.op = "log_remove_tag" -> IF L THEN Seen([p EXCEPT !.ls[li].tags = Del(@, op.a)], Get(p.ls[li].tags, op.a, "nil")) ELSE Fail(p)
         [] op.op = "log_field_value" -> IF L THEN Seen(p, Get(p.ls[li].fields, op.a, "nil")) ELSE Fail(p)
         [] op.op = "log_set_field" -> IF L THEN Seen([p EXCEPT !.ls[li].fields = Put(@, op.a, op.b)], Get(p.ls[li].fields, op.a, "nil")) ELSE Fail(p)
RECURSIVE RunProg(_, _)
RunProg(p, prog) == IF prog = <<>> THEN p ELSE RunProg(Do(p, Head(prog)), Tail(prog))

Fn(kind) == CASE kind = "metric" -> "process_metric" [] kind = "log" -> "process_log" [] OTHER -> "tick"
Result(in, id, prog) ==
    IF in.kind \in Missing THEN Fail(Blank) ELSE RunProg(InitPayload(in, id), prog)

Id == ToString(Len(log))
Step(in, prog) ==
    LET id == Id
        r == Result(in, id, prog)
        stale == in.kind = "pulse" /\ in.i <= last
        raw == in.kind = "raw"
        ran == ~stale /\ ~raw
    IN /\ log' = Append(log, [in |-> in, prog |-> prog, id |-> id])
       /\ last' = IF ran /\ in.kind = "pulse" /\ r.ok THEN in.i ELSE last
       /\ out' = Append(out,
            [logs |-> IF ran /\ r.ok THEN r.ls ELSE <<>>,
             metrics |-> IF ran /\ r.ok THEN r.ms ELSE <<>>,
             obs |-> IF ran THEN r.obs ELSE <<>>,
             failed |-> IF ran /\ ~r.ok THEN Fn(in.kind) ELSE "",
             same |-> raw \/ (in.kind = "pulse" /\ ran)])  \* the event itself goes on
Init == last = 0 /\ out = <<>> /\ log = <<>>
NextSim == Len(log) < MaxEv /\ Step(RandomElement(Inputs), RandomElement(Progs))
Next == Len(log) < MaxEv /\ \E in \in Inputs, prog \in Progs : Step(in, prog)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* a failure leaves nothing but the failure metric (and the pulse) *)
FailureClean == \A k \in 1..Len(out) : out[k].failed # "" => out[k].logs = <<>> /\ out[k].metrics = <<>>
(* a pulse number that the script handled is handled once *)
PulseOnce == \A j, k \in 1..Len(out) : j < k /\ log[j].in.kind = "pulse" /\ log[k].in.kind = "pulse"
               /\ out[j].failed = "" /\ out[j].same /\ log[k].in.i <= log[j].in.i => ~out[k].same /\ out[k].metrics = <<>> /\ out[k].logs = <<>>
RawUntouched == \A k \in 1..Len(out) : log[k].in.kind = "raw" => out[k] = [logs |-> <<>>, metrics |-> <<>>, obs |-> <<>>, failed |-> "", same |-> TRUE]
EmitAll == Len(log) = MaxEv => PrintT("@@" \o ToJson([steps |-> log, out |-> out]))
=============================================================================
