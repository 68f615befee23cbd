#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "A sink drains every upstream before it stops",
  "A sink consumes its queue in order and hands every event queued ahead of the end-of-stream markers to the destination exactly once. It stops only after each of its configured upstreams has announced its own end, however many upstreams there are and however their events and markers interleave. It is then closed exactly once, and everything it buffered is flushed by that close.",
  ["schedules", "histories"], "Every number of upstreams, every interleaving of their events, pulses and end-of-stream markers.",
  "The unit tests of sinks call delivery functions directly and never run the sink's consuming loop with several upstreams; interleavings of markers are never tried.",
  ["src/sink/mod.rs"], [("consuming loop counts end-of-stream markers against its configured upstreams", "src/sink/mod.rs RunnableSink::consume")],
  [("total_shutdowns", "upstreams that announced their end", "src/sink/mod.rs")], ["calls a sink implementation receives: deliver / deliver_line / deliver_raw / flush / shutdown"])

p("C02", "A sink under back-pressure keeps the event and flushes first",
  "While a sink reports that it cannot accept more, no event is handed to it and none is discarded: the sink is flushed, as often as needed, until it accepts again, and the waiting event is then handled exactly once and in order.",
  ["schedules", "histories"], "Every history of events, pulses and capacity states, including a sink that needs several flushes to reopen.",
  "Tests exercise valve_state of individual sinks in isolation, never the loop that must obey it.",
  ["src/sink/mod.rs", "src/util.rs"], [("inner retry loop on a closed valve", "src/sink/mod.rs RunnableSink::consume"), ("valve states", "src/util.rs Valve")],
  None, ["order of deliver and flush calls on a sink with bounded capacity"])

p("C03", "A flush pulse is honoured once, and only at the sink's interval",
  "A periodic pulse makes a sink flush at most once per pulse number, even when several upstreams repeat the pulse or deliver old numbers late. The flush happens exactly for the fresh pulse numbers that are multiples of the sink's interval, for every fresh pulse if the interval is zero, and never for a sink without an interval.",
  ["histories", "schedules", "configurations"], "Every interleaving of duplicated, skipped and stale pulses with events, for every interval.",
  "No test drives the consuming loop with pulses from more than one upstream or out of order.",
  ["src/sink/mod.rs", "src/source/flush.rs"], [("last pulse number and modulo test", "src/sink/mod.rs RunnableSink::consume")],
  [("last_flush_idx", "largest pulse number seen", "src/sink/mod.rs")], ["flush calls on a sink"])

p("C04", "A filter stage passes everything on and ends its stream once, last",
  "A filter sends to every one of its forwards all events it produces, in the order produced, and after a failed event sends that event's replacement and keeps going. It tells each forward that the stream has ended exactly once, after every one of its own upstreams has ended and after everything it still had to emit.",
  ["schedules", "histories"], "Every number of upstreams and forwards and every interleaving of their events and end-of-stream markers, with failing events anywhere.",
  "Filter tests call process() on single events; the run loop that counts upstreams and forwards the marker is executed by no test.",
  ["src/filter/mod.rs"], [("filter run loop", "src/filter/mod.rs Filter::run")],
  [("total_shutdowns", "upstreams that announced their end", "src/filter/mod.rs")], ["events arriving in each forward's queue"])

p("C05", "Fan-out gives every forward every event, unchanged and in order",
  "Sending an event to a list of forwards places exactly one unchanged copy in each forward's queue, in the order sent by that sender. An event is missing from one forward only if that forward's queue was completely full at that moment; this is counted, and it never affects the other forwards.",
  ["schedules", "histories", "inputs", "fault_sequences"], "Every number of forwards and concurrent senders, every event, and every pattern of full queues and disk overflow.",
  "The fan-out function has no test at all; disk overflow and full queues are never produced.",
  ["src/util.rs", "src/metric/event.rs", "src/metric/telemetry.rs", "src/metric/logline.rs"], [("clone to all but the first, original to the first, retry on transient errors, drop and count on full", "src/util.rs send"), ("serialization of events to disk queues", "src/metric/*.rs serde derives")],
  None, ["contents of each receiver", "full-queue drop counter"])

p("C06", "The running topology delivers accepted data everywhere it should",
  "For any acyclic wiring of sources, filters and sinks whose queues do not overflow, data accepted from a client reaches each sink reachable from that source along every configured path and no other sink. On a termination signal the process stops accepting, lets everything already accepted reach those sinks, flushes them and then exits by itself.",
  ["configurations", "schedules", "crash_points"], "Every acyclic wiring, every moment of the termination signal relative to the traffic.",
  "No test starts the program; wiring, upstream counting and shutdown order live in the binary's main function.",
  ["src/bin/cernan.rs", "src/matrix.rs", "src/config.rs", "src/sink/mod.rs", "src/filter/mod.rs", "src/thread.rs"],
  [("adjacency matrix gives each stage its upstreams and forwards", "src/bin/cernan.rs populate_forwards, src/matrix.rs"), ("sources are shut down first, then sinks and filters are joined", "src/bin/cernan.rs main")],
  [("adjacency_matrix", "who feeds whom", "src/bin/cernan.rs")], ["what each sink emits to the outside", "process exit"])

p("C07", "Wiring bookkeeping: upstreams and forwards are exactly the edges",
  "For any sequence of declared edges, the recorded neighbours of a stage are exactly those declared, with the most recently declared attachment per edge, and removing a stage hands back exactly its neighbours or attachments and nothing else changes. A configuration that forwards to anything but a declared filter or sink is refused at start-up before any data is accepted.",
  ["configurations", "histories"], "Every sequence of edge declarations, queries and removals; every configuration with or without a dangling forward.",
  "The adjacency structure has no test, and no test starts the program with a bad wiring.",
  ["src/matrix.rs", "src/bin/cernan.rs"], [("adjacency map", "src/matrix.rs Adjacency"), ("forward validation", "src/bin/cernan.rs main")],
  None, ["results of the adjacency queries", "exit status of the program"])

p("C08", "The flush-boundary hold releases everything, once, in time order",
  "Events carrying a time are held and released, each exactly once, at the first pulse for which their time group has seen more pulses than the tolerance, ahead of that pulse; groups come out in increasing time order and each group in arrival order. Events without a time pass straight through, and anything still held when the stream ends is released before the end is announced.",
  ["histories", "inputs"], "Every sequence of timed and untimed events and pulses, every tolerance, and an end of stream at any point.",
  "The filter has no tests.",
  ["src/filter/flush_boundary_filter.rs", "src/filter/mod.rs"], [("holds sorted by time, aged by pulses", "src/filter/flush_boundary_filter.rs process")],
  [("holds", "held events by timestamp with their age in pulses", "src/filter/flush_boundary_filter.rs")], ["events leaving the filter"])

p("C09", "The delay filter keeps exactly what lies within the tolerance",
  "A metric or log line leaves the delay filter unchanged if its time differs from the current time by less than the tolerance, and is rejected if it differs by more; all other kinds of events always pass, order is preserved, and accepted and rejected items are counted.",
  ["inputs", "histories", "configurations"], "Every timestamp including extreme ones, every tolerance, every mix of event kinds.",
  "The filter has no tests.",
  ["src/filter/delay_filter.rs"], [("tolerance comparison", "src/filter/delay_filter.rs process")],
  None, ["events leaving the filter", "accept/reject counters"])

p("C10", "The programmable filter emits exactly what the script asked for",
  "For each event, the stage's output is exactly the metrics and log lines the script left in its payload, with the script's edits applied, followed by the pulse itself when the event is a pulse. A pulse number the script already handled is swallowed; raw events bypass the script. A script failure yields one failure metric in place of the output, and the results of one event never leak into those of another.",
  ["programs", "histories", "inputs"], "Every script built from the payload interface, every sequence of events, pulses (fresh and repeated) and failures.",
  "Tests run a fixed set of scripts on single events; sequences across events, repeated pulses and errors in the middle are not covered.",
  ["src/filter/programmable_filter.rs", "src/filter/mod.rs"], [("payload shuttled through the scripting stack", "src/filter/programmable_filter.rs process"), ("pulse de-duplication", "src/filter/programmable_filter.rs last_flush_idx")],
  [("last_flush_idx", "last pulse number the script handled", "src/filter/programmable_filter.rs")], ["events leaving the filter"])

p("C11", "JSON encoding keeps each log line's content with fixed precedence",
  "Each log line becomes one raw JSON document containing its fields, its tags over the configured default tags, its time, path and, if line parsing is off or fails, its text; on a clash parsed content wins over fields and fields over metadata. All other events pass unchanged and order is preserved.",
  ["inputs", "histories", "configurations"], "Every log line, including clashing keys and lines that are valid, invalid or non-object JSON.",
  "Tests check a handful of documents without key clashes.",
  ["src/filter/json_encode_filter.rs"], [("merge of metadata, fields and parsed line", "src/filter/json_encode_filter.rs process")],
  None, ["the emitted raw events"])

p("C12", "Aggregation: one point per name, tags and time bin, exact fold",
  "Between flushes, all samples with the same name, the same set of tags and the same time bin are folded, in arrival order, into exactly one point: sums add, sets keep the last, summaries and histograms keep every sample. Samples that differ in name, tags or bin are never mixed, whatever the order in which samples, tags or kinds arrive, and the reported numbers of points and series agree with what is stored.",
  ["inputs", "histories"], "Every sequence of samples over names, tag sets (built in any order), kinds, timestamps and bin widths.",
  "Property tests in the tree use untagged or identically built metrics and mostly one kind; tag maps built in different orders never occur.",
  ["src/buckets.rs", "src/metric/telemetry.rs", "src/metric/mod.rs"], [("series identity hash", "src/metric/telemetry.rs name_tag_hash"), ("binary search within the bin and in-place add", "src/buckets.rs add"), ("kind-dependent addition", "src/metric/telemetry.rs Value::add")],
  [("keys/values", "per-series ordered points", "src/buckets.rs")], ["iteration, count and length of the aggregation store"])

p("C13", "Gauges persist across bins and flushes, everything else starts over",
  "After a flush only series whose latest point is persistent remain, as one point with the latest value; every other series starts from nothing. A persistent sample entering a new bin continues from the closest earlier value of its series, and a non-persistent one never does.",
  ["histories", "inputs"], "Every history of samples, kinds, persistence flags, bins and flushes.",
  "Tests sample single resets over few series; the interaction of persistence, kinds, bins and repeated resets is open.",
  ["src/buckets.rs", "src/protocols/statsd.rs"], [("reset keeps a persistent last point", "src/buckets.rs reset"), ("inherit on a new bin", "src/buckets.rs add")],
  None, ["contents of the aggregation store after each step"])

p("C14", "Wavefront output: every point once per flush, gaps padded exactly",
  "Each flush of the Wavefront sink writes every aggregated point exactly once with its value, time and tags, and a persistent value is written again in later flushes. For kinds with padding on, zero points are added exactly so that a series' silent gaps are bracketed by zeros; for the other kinds nothing is added. Lines reach the proxy despite refused or broken connections.",
  ["histories", "inputs", "configurations", "fault_sequences"], "Every history of samples over series, bins, kinds and flushes, every padding setting, every connection failure pattern before a successful write.",
  "Padding tests look at the iterator on sorted single-flush inputs; multi-flush histories and the network path are not tested.",
  ["src/sink/wavefront.rs", "src/buckets.rs"], [("padding iterator", "src/sink/wavefront.rs padding"), ("last seen time per series", "src/sink/wavefront.rs format_stats"), ("reconnect until written", "src/sink/wavefront.rs flush")],
  [("last_seen", "time of the last point per series", "src/sink/wavefront.rs")], ["lines received by a proxy"])

p("C15", "Prometheus scrapes show the true aggregate of what was delivered",
  "A scrape reports, for each metric name and set of tags, the aggregate of what was delivered: the last value of a gauge, the running total of a counter, and for summaries and histograms a total count and sum that never decrease and cumulative buckets that agree with them. Scraping never changes the state, samples past the configured age or window only leave the windowed quantiles, and every metric name, label value and line is valid exposition format, with the type of each name declared once.",
  ["histories", "inputs", "schedules"], "Every history of deliveries, purges and scrapes over kinds, names, tags and times.",
  "Tests scrape nothing and check the aggregation structure for single kinds without purge/scrape interleavings.",
  ["src/sink/prometheus.rs", "src/http.rs"], [("perpetual and windowed accumulators", "src/sink/prometheus.rs PrometheusAggr"), ("exposition writer", "src/sink/prometheus.rs write_text")],
  None, ["HTTP response body"])

p("C16", "Native forwarding delivers every buffered item despite failures",
  "Every metric and log line handed to the native sink is written to the peer as part of a well-framed payload by the next flush, or by a later one if connections were refused or broken, and again only if a write failed. A receiving native source turns it back into an event with the same name, kind, value, time, tags and persistence.",
  ["fault_sequences", "histories", "inputs"], "Every sequence of items, flushes, refused and broken connections; every item value.",
  "The native sink has no test, and no test connects it to a native source.",
  ["src/sink/native.rs", "src/source/native.rs", "src/protocols/native.rs"], [("buffer kept until a payload was written; reconnect with delay", "src/sink/native.rs flush"), ("payload decoding", "src/source/native.rs handle_stream_payload")],
  [("buffer", "items not yet written", "src/sink/native.rs")], ["bytes received by the peer", "events out of a native source"])

p("C17", "The Kafka sink publishes every raw event, retrying until resolved",
  "Every raw event handed to the Kafka sink is published to the topic with its bytes, its ordering key and its metadata. After a flush nothing is in flight: each event was either stored by the broker or failed for good, transient failures, broken connections among them, having been retried unchanged. Metadata whose key cannot name a Kafka header is left out. The sink refuses input while its in-flight bytes reach the limit and accepts again after a flush.",
  ["fault_sequences", "histories"], "Every sequence of events and flushes, every pattern of broker replies per attempt.",
  "Unit tests mock one failure of one message; multi-message, multi-round failure patterns and the real producer path are not covered.",
  ["src/sink/kafka.rs"], [("in-flight list re-sent until empty", "src/sink/kafka.rs flush"), ("classification of broker errors", "src/sink/kafka.rs await_inflight_messages")],
  [("messages, message_bytes", "in-flight futures and their bytes", "src/sink/kafka.rs")], ["records received by a broker", "valve state"])

p("C18", "A synchronous publish is acknowledged only when it is resolved",
  "A client that asks for a synchronous publish receives its own identifier back exactly once, in order, and only after the destination reported that very message as resolved; asynchronous publishes are never answered. Acknowledging, waiting and removal never interfere between connections, and a connection that never asked is never blocked.",
  ["schedules", "histories", "fault_sequences"], "Every interleaving of synchronous and asynchronous publishes on several connections with resolutions at any time.",
  "Unit tests call the acknowledgement table from one thread; no test sends a synchronous publish over a socket.",
  ["src/source/avro.rs", "src/metric/ackbag.rs", "src/sink/kafka.rs"], [("prepare, send, wait, remove, answer", "src/source/avro.rs handle_avro_payload"), ("acknowledgement table", "src/metric/ackbag.rs SyncAckBag"), ("acknowledge on resolution", "src/sink/kafka.rs")],
  [("waiting_syncs", "acknowledgements received per waiting connection", "src/metric/ackbag.rs")], ["bytes returned to the client", "raw events forwarded"])

p("C19", "Length-prefixed streams decode the same however they are chunked",
  "For the framed protocols, the sequence of payloads decoded from a connection depends only on the bytes sent, not on how they were split into segments or when they arrived. Each complete payload yields its events once and in order, before the connection closes or after, and an oversized or malformed payload ends only that connection.",
  ["inputs", "schedules"], "Every byte stream of valid and invalid frames and every split of it into segments, including splits inside the length prefix.",
  "Tests decode complete payloads in memory; segmentation on a non-blocking socket is never exercised.",
  ["src/source/nonblocking.rs", "src/source/avro.rs", "src/source/native.rs"], [("buffered length-prefixed reader", "src/source/nonblocking.rs BufferedPayload"), ("stream handlers", "src/source/avro.rs, src/source/native.rs")],
  [("payload_size, payload_pos", "progress inside the current frame", "src/source/nonblocking.rs")], ["events forwarded by the source"])

p("C20", "Avro publishes are forwarded byte for byte with their header fields",
  "A well-formed publish is forwarded as one raw event with exactly the client's bytes, ordering value and metadata pairs, for every protocol version. A publish that is truncated, has inconsistent lengths or does not hold a valid container is refused: nothing is forwarded, the connection is closed, and other connections and later shutdown are unaffected.",
  ["inputs", "histories"], "Every header, metadata list and blob, and every truncation of them.",
  "Tests parse two well-formed payloads from memory; truncated or malformed ones are not tried.",
  ["src/source/avro.rs"], [("payload parser", "src/source/avro.rs From<Vec<u8>> for Payload")],
  None, ["raw events forwarded", "connection state"])

p("C21", "A listening source always ends its stream exactly once, and last",
  "Told to stop, a listening source ends within bounded time whatever its connections are doing: idle, mid-payload, closed, or having sent garbage. It forwards exactly one end-of-stream marker, as its last event, after all events of all its connections, and it accepts and serves any number of connections until then.",
  ["schedules", "fault_sequences", "histories"], "Every set of connections in every state at the moment of the stop, every order of connects, closes and failures.",
  "Two thread-pool tests stop idle threads; no test stops a source with live, failed or finished connections.",
  ["src/source/tcp.rs", "src/thread.rs", "src/source/avro.rs", "src/source/native.rs", "src/source/graphite.rs", "src/source/statsd.rs"], [("stop handlers, then send the marker", "src/source/tcp.rs accept_loop"), ("thread pool signalling and joining", "src/thread.rs ThreadPool")],
  [("threads/joinable", "live and finished handlers", "src/thread.rs")], ["events in the forward's queue", "termination of the source thread"])

p("C22", "Statsd packets are taken whole or not at all, each exactly once",
  "Each datagram yields exactly the metrics its lines describe - name, kind, sampled value, sign and persistence - once and in order. A datagram with any malformed line yields nothing, is counted as bad, and leaves every other datagram's result unaffected.",
  ["inputs", "histories"], "Every sequence of datagrams of well-formed and malformed lines in any mixture.",
  "Tests parse single strings; sequences of good and bad datagrams through the source are not tried.",
  ["src/source/statsd.rs", "src/protocols/statsd.rs"], [("line grammar", "src/protocols/statsd.rs parse_statsd"), ("receive loop", "src/source/statsd.rs handle_datagrams")],
  None, ["events forwarded by the source", "good/bad packet counters"])

p("C23", "Graphite lines are taken whole or not at all, however they arrive",
  "Each line received on a connection yields exactly the points it describes, once and in order, however the bytes are split into segments; a malformed line yields nothing, is counted as bad, and leaves neighbouring lines and other connections unaffected.",
  ["inputs", "histories", "schedules"], "Every byte stream of good and bad lines and every segmentation, over several connections.",
  "Tests parse single strings; partial lines, segmentation and good/bad sequences on a socket are not tried.",
  ["src/source/graphite.rs", "src/protocols/graphite.rs"], [("line reader", "src/source/graphite.rs handle_stream"), ("line grammar", "src/protocols/graphite.rs parse_graphite")],
  None, ["events forwarded by the source", "good/bad packet counters"])

p("C24", "Tailed files: every appended line once, in order, across rotation",
  "Every complete line appended to a watched file after it is being watched yields exactly one log line with that text and the file's path, in order within the file. This holds across appends in pieces, truncation to a shorter file, rename-and-recreate rotation and deletion, and a line is never emitted in fragments or with characters missing. A file first found already holding text is read from its end on; what replaces a watched file, or is truncated to less than was read, is read from its start; the unterminated rest of a file that is rolled over or removed counts as a line; empty lines and lines that are not UTF-8 yield nothing. Files that come and go between two polls, and truncations that have been written over by then, cannot be seen and are not meant.",
  ["histories", "schedules", "inputs", "fault_sequences"], "Every history of partial and whole-line appends, truncations, rotations and deletions, interleaved with polling at any point.",
  "Property tests drive the watcher with whole lines, deletion and truncation at poll boundaries; partial lines and the full source are not covered.",
  ["src/source/file/file_watcher.rs", "src/source/file/file_server.rs", "src/source/file/mod.rs"], [("file watcher with reopen on identity change and seek on truncation", "src/source/file/file_watcher.rs read_line"), ("polling server", "src/source/file/file_server.rs run")],
  [("previous_size, file_id, reopen", "what the watcher believes about the file", "src/source/file/file_watcher.rs")], ["log lines forwarded by the source"])

p("C25", "Self-telemetry reports every counted occurrence exactly once",
  "Whatever the program counts about itself is reported downstream exactly once: the sum of all reported values of a counter equals what was counted before the report, no increment is reported twice or lost between reports, and what was counted before the stop is reported no later than the stop.",
  ["schedules", "histories"], "Every interleaving of concurrent increments with reports and with the stop.",
  "Tests do not run the reporting source.",
  ["src/source/internal.rs"], [("atomic swap of each counter per report", "src/source/internal.rs atom_non_zero_telem")],
  None, ["telemetry forwarded by the internal source"])

p("C26", "Event tags win over configured tags, in every output",
  "In every output, the tags shown for an item are the configured default tags overlaid by the item's own: each key once, with the item's own value if it has one. Overlaying, inserting, removing and merging tags never touches other keys, and equal tag sets give equal identity however they were built.",
  ["inputs", "histories"], "Every pair of tag sets and every sequence of tag operations.",
  "Tests use fixed small tag sets built in one order.",
  ["src/metric/mod.rs", "src/metric/telemetry.rs", "src/metric/logline.rs"], [("layered tag iteration", "src/metric/mod.rs TagIter"), ("overlay and merge", "src/metric/telemetry.rs, src/metric/logline.rs"), ("identity hashes", "src/metric/telemetry.rs hash, name_tag_hash")],
  None, ["tag iteration, lookup and identity of metrics and log lines"])

p("C27", "Pulses are numbered consecutively and reach all top-level stages",
  "The pulse generator numbers its pulses 1, 2, 3, ... without gaps or repeats and sends each to every stage directly fed by a source; stages further down receive each pulse through the filters above them, after all events those filters released ahead of it.",
  ["schedules", "configurations"], "Every wiring and every duration.",
  "No test runs the pulse generator.",
  ["src/source/flush.rs", "src/bin/cernan.rs", "src/filter/mod.rs"], [("pulse loop", "src/source/flush.rs run"), ("set of pulse destinations", "src/bin/cernan.rs populate_forwards")],
  None, ["pulses arriving in the queues"])

p("C28", "InfluxDB receives every batch until it accepts it, each point intact",
  "Every flush of the InfluxDB sink posts all points delivered since the last one, in order, as one batch, and repeats it unchanged until the server accepts it, waiting longer the more attempts have failed; then the batch is discarded exactly once. A strict reader of the line protocol finds in it exactly the delivered name, tags over the configured ones, value or values and time of each point that InfluxDB can hold. Every attempt and its outcome is counted, the sink refuses input while too much waits, and shutting down flushes.",
  ["fault_sequences", "histories", "inputs"], "Every sequence of deliveries and flushes, every pattern of answers and broken connections, every name, tag, value and time.",
  "No test sends anything to a server; the unit test of the format is itself broken on this platform.",
  ["src/sink/influxdb.rs", "src/time.rs"], [("retry loop", "src/sink/influxdb.rs flush"), ("line protocol writer", "src/sink/influxdb.rs format_stats"), ("backoff", "src/time.rs delay")],
  [("aggrs", "points waiting for the next flush", "src/sink/influxdb.rs"), ("delivery_attempts", "level of backoff", "src/sink/influxdb.rs")], ["requests received by a server", "pauses between them", "valve state", "counters"])

p("C29", "Elasticsearch receives every log line until taken or given up",
  "Every flush of the Elasticsearch sink sends all waiting lines, in order, in one bulk request, each with its own identity that stays the same whenever it is sent again, and with its text, time, path, fields and tags. A line leaves only when the index took it or it was refused as often as configured; a request that fails as a whole changes nothing. What happened is counted, replies about unknown lines are ignored, the sink refuses input while too many lines wait, and shutting down makes one more attempt.",
  ["fault_sequences", "histories", "inputs"], "Every pattern of per-line and per-request outcomes over any number of flushes.",
  "No test sends anything to a server.",
  ["src/sink/elasticsearch.rs"], [("attempt counting and removal by id", "src/sink/elasticsearch.rs flush"), ("document writer", "src/sink/elasticsearch.rs bulk_body")],
  [("buffer", "waiting lines with their ids and refusals", "src/sink/elasticsearch.rs")], ["requests received by a server", "valve state", "counters"])

p("C30", "Console output: every line once, every aggregate once per flush",
  "Each flush of the console sink prints all log lines that arrived since the last one, once, in order of arrival, with their time, path, text and tags over the configured ones; then, under the heading of its kind, every point of its aggregation store exactly once with its name, time and value (the quantiles of a summary, the bins of a histogram). Afterwards only gauges that go on remain. The sink never refuses input, and shutting down prints what is left.",
  ["histories", "inputs"], "Every sequence of points, lines and flushes; every name, tag, text, time and value.",
  "The tests of the console sink never look at what it prints.",
  ["src/sink/console.rs", "src/buckets.rs"], [("printing of lines and aggregates", "src/sink/console.rs flush"), ("aggregation store", "src/buckets.rs")],
  [("aggrs", "points since the last flush and gauges that go on", "src/sink/console.rs"), ("buffer", "lines since the last flush", "src/sink/console.rs")], ["standard output"])

p("C31", "Each configuration option sets what it says, and nothing else",
  "A configuration file means the same however its tables are ordered or spelled. Each stage that is named, not disabled, and has what it needs is in use under its own name and no other stage is. Every option given takes effect exactly as written and only on its own stage; every one not given has its documented default, or for flush intervals, tags (also those read from the environment) and the scripts directory the global value. A value of another type or out of the option's range is refused, never ignored or altered.",
  ["configurations"], "Every set of options of every kind of stage, every value within and outside their ranges, every mix of stages.",
  "Tests parse a few dozen fixed files, each with one stage and few of its options.",
  ["src/config.rs", "src/source/mod.rs", "src/sink/mod.rs", "src/filter/mod.rs"], [("option by option reading with defaults", "src/config.rs parse_config_file"), ("inherited interval", "src/config.rs parse_flush_interval"), ("global tags", "src/config.rs global_tags")],
  None, ["the settings parse_config returns"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P))
