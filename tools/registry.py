"""Which module decides which property: property -> (module in checks/, specification, level note)."""
CHECKS = {
 "C01": ("sinkloop", "SinkLoop.tla, SinkTrace.tla", "TLC explores the sink loop exhaustively within small constants; every transition of the generated state graph and sampled long behaviours are replayed through the real RunnableSink, and runs with concurrent upstream threads are validated against the specification. Trusts hopper's FIFO order per sender and the probe sink."),
 "C02": ("sinkloop", "SinkLoop.tla, SinkTrace.tla", "As C01, with sinks of every small capacity that need several flushes to reopen."),
 "C03": ("sinkloop", "SinkLoop.tla, SinkTrace.tla", "As C01, with every order of fresh, repeated, skipped and stale pulse numbers and every small interval."),
 "C04": ("filterloop", "FilterLoop.tla, FilterTrace.tla", "TLC explores the run loop exhaustively within small constants; every history up to the bound and sampled long ones are replayed through the real run loop with a probe filter, and runs with concurrent upstream threads are validated against the specification. Trusts hopper and the probe filter."),
 "C05": ("fanout", "Fanout.tla, FanoutTrace.tla", "TLC explores sends forward by forward exhaustively within small constants (liveness too); every transition, every short history and sampled long ones are replayed through the real fan-out into real queues of exact capacity or spilling to disk, with events of every kind; concurrent senders and receivers are recorded and validated. Trusts hopper."),
 "C08": ("filters", "FlushBoundary.tla", "Every transition of the specification's state graph and sampled long histories are replayed through the real filter stage. Time values are mapped order-preservingly, including the extreme ones."),
 "C09": ("filters", "Delay.tla", "Every short history over distances on both sides of the tolerance, extreme times included, and sampled long ones are replayed through the real filter; whole events are compared before and after."),
 "C10": ("filters", "Programmable.tla", "The specification interprets the payload operations; every program of one operation on every input, sampled longer ones, and every short sequence of events with failures are turned into Lua scripts and run by the real filter. Scripts produce UTF-8 text; metric_query is not modelled."),
 "C11": ("filters", "JsonEncode.tla", "Every combination of line kinds, fields, tags and defaults over a key set with all clashes is replayed through the real filter, and sampled sequences with other kinds of events."),
 "C12": ("buckets", "Buckets.tla", "Every transition of the store's state graph for small constants and sampled long histories are replayed through the real store, tag maps being put together in many ways. Trusts the quantiles crate."),
 "C13": ("buckets", "Buckets.tla", "As C12; the specification's action properties say what a flush keeps and what a new bin continues from."),
 "C14": ("wavefront", "Wavefront.tla (on Buckets.tla)", "Every transition of the sink's state graph for small constants, sampled long histories, and histories with broken and refused connections are replayed through the real sink, writing to a proxy played by the harness; every line of every flush is compared."),
 "C15": ("prometheus", "Prometheus.tla", "Every transition of the sink's state graph for small constants, sampled long histories, histories under a moving clock, and runs scraped while events arrive are replayed through the real sink and its HTTP server; every scrape is parsed strictly and compared. Bounds of a histogram and tags of a name stay the same; quantiles are compared within one rank."),
 "C16": ("native", "NativeForward.tla", "TLC explores writes, failures and reconnections exhaustively within small constants (liveness too); every transition, every short history of flushes and failures and sampled long ones are replayed through the real sink, writing to a peer played by the harness or to a real native source; every payload or event is compared."),
 "C18": ("acksync", "AckSync.tla, AckBag.tla", "TLC explores connections, publishes and resolutions exhaustively within small constants (liveness too); every macro transition and sampled long histories are replayed through the real Avro source, the harness playing clients and destination, and every short history of the bag through the real bag."),
 "C19": ("source", "Listener.tla, ListenerTrace.tla", "TLC explores connections, segments and reads exhaustively within small constants; every segmentation of every short script of frames, and sampled long histories over several connections, are sent to the real native and Avro sources cell by cell; what they forward and when they close is compared. Racing clients are recorded and validated."),
 "C20": ("avro", "AvroPublish.tla", "The specification decodes publishes byte by byte; every version, order, metadata list and container, every cut and every change of a single byte of small publishes, and real files are sent to the real source; what it forwards or refuses is compared."),
 "C21": ("source", "Listener.tla, ListenerTrace.tla, Packets.tla", "As C19 and C23, with stops at every point of every history, up to 30 connections, idle, mid-payload, reset, or ended; liveness of the stop is checked on the specification; stops racing with data are recorded and validated."),
 "C22": ("packets", "StatsdPackets.tla", "Every line over the classes of its parts, every pair of lines in a datagram, every short sequence of good and bad datagrams and sampled long ones, in many spellings and up to the largest size, are sent to the real source; what it forwards and counts is compared."),
 "C23": ("source", "Listener.tla, ListenerTrace.tla", "As C19 for lines: every segmentation of every short script of good, bad and blank lines, inside characters too; what the source counts as good and bad is compared over all cases."),
 "C06": ("topology", "Topology.tla, TopologyTrace.tla", "The model interleaves sources, filters, sinks, spilling queues and the signal over every wiring of small sets of stages, liveness of the exit included. For wirings sampled from it over three sources, four filters and four sinks the real program is run with real clients, files, servers and signals; what came out of each sink, copy by copy and path by path, is checked against the specification."),
 "C07": ("adjacency", "Wiring.tla, Topology.tla", "Every operation of the real structure in every state of two nodes, every short history and sampled long ones over six; and start-ups of the real program for sampled wirings over all kinds of stages, sound and with one forward to nowhere."),
 "C24": ("filetail", "FileTail.tla, FileTailTrace.tla", "TLC explores writers and rounds of reading exhaustively within small constants; every transition and sampled long histories over several paths are run against the real file source, and streams of steps that do not wait, some of them taken at the very moment the source looks at a path or opens it. What it forwards is validated against the specification, call by call."),
 "C17": ("kafka", "Kafka.tla", "TLC explores deliveries, broker replies and retries exhaustively within small constants (liveness too); every transition, every short history of replies and sampled long ones are replayed through the real sink, publishing to a Kafka broker played by the harness, which answers each attempt as the history says or breaks the connection; records, acknowledgements and the valve are compared. Trusts librdkafka."),
 "C28": ("httpsinks", "Influx.tla", "TLC explores flushes and answers exhaustively within small constants; every transition and sampled long histories are replayed through the real sink, posting to a server played by the harness, which reads the points with a strict parser; attempts, waits, counters and the valve are compared. Plain HTTP only."),
 "C29": ("httpsinks", "Elastic.tla", "TLC explores flushes and per-item and per-request answers exhaustively within small constants; every transition and sampled long histories are replayed through the real sink, talking to an index played by the harness; requests, ids, counters and the valve are compared. Plain HTTP only."),
 "C27": ("topology", "Topology.tla, TopologyTrace.tla, PulseTrace.tla", "As C06, with filters that answer each pulse: the pulses each filter saw must be those of the stages above it. The real timer by itself is run into queues of every size and read at every pace."),
 "C25": ("internal", "Internal.tla", "The model interleaves counting with every part of a report and with the stop. Sampled histories over all counters (those a stage keeps to itself through real sessions with that source) run against the real reporting source; what each report says is compared, and threads that count without pause while it reports and stops are balanced against what was reported and what is left."),
 "C26": ("tags", "Tags.tla", "Every operation in every state of two items over two keys (three keys for one item), every short history and sampled long ones are applied to real metrics and log lines; what iteration, lookup and identity give, and for a part what the real Wavefront, native, console, Prometheus, Elasticsearch and InfluxDB sinks and the JSON encoder put out, is compared."),
 "C30": ("console", "Console.tla (on Buckets.tla)", "Every transition of the sink's state graph for small constants and sampled long histories are replayed through the real sink, the last flush being that of its end; everything it prints is read back and compared. Quantiles are compared within one rank."),
 "C31": ("config", "Config.tla", "The specification builds files option by option and says what each means; every set of options of every stage and sampled files over all of them are written out in many spellings and read by the real code; every setting is compared."),
}
NOT_APPLICABLE = {}
PENDING = "no check built yet"
