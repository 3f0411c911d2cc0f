RM = 'runtime monitoring: '
CLAIMED = ['M01', 'M02', 'M03', 'M04', 'T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'T07',
           'C01', 'I01', 'I02', 'I03', 'I04', 'I05', 'I06', 'I07', 'F01', 'F02', 'F03', 'F04', 'F05',
           'S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07', 'S08']
NOT_APPLICABLE = {}

prop('T01', 'Every forward gets every event exactly once, unaltered, in order',
 'Whatever mix of producers, fan-out and fan-in a topology has, each event handed to a component\'s forwards reaches every one of those forwards exactly once, with its content unchanged, and in the order its producer sent it. Events of different producers may interleave at a shared consumer, but none is lost, duplicated, altered or sent to a component that is not a forward. A filter that fails on one event still passes on everything it emitted for that event and keeps processing later ones.',
 ['schedules', 'inputs', 'configurations'],
 'all topologies of sources, pass-through filters and sinks; all thread interleavings; all event kinds and queue sizes',
 'The unit tests never run two producers and two consumers together; the send loop, the filter loop and the sink loop have no test that runs them as threads.',
 ['src/util.rs', 'src/filter/mod.rs', 'src/sink/mod.rs', 'src/source/mod.rs'],
 [('fan-out send', 'src/util.rs send'), ('filter run loop', 'src/filter/mod.rs Filter::run'), ('sink run loop', 'src/sink/mod.rs consume')],
 ['a recording sink at the end of every path'],
 RM + 'threaded topologies with uniquely numbered events; offline exactly-once/FIFO/content checker over the recorded histories',
 'Held on the sampled topologies, schedules and event mixes; trusts the recording sinks.')

prop('T02', 'Orderly shutdown drains every accepted event and ends cleanly',
 'When cernan is asked to stop (SIGTERM or SIGINT), every event its sources had accepted by then is delivered to every sink it is routed to before the process exits with status 0. A filter or sink with several upstreams keeps consuming until every one of them has shut down, and hands its own downstreams exactly one end-of-stream, after everything else it sent. Shutdown completes in bounded time as long as the sinks\' peers are reachable, including with idle or half-open client connections and a crashed connection handler.',
 ['schedules', 'configurations', 'histories'],
 'all acyclic topologies and all orders in which upstreams finish; all instants of the stop request; queues in memory and on disk',
 'No test stops a running topology; the end-of-stream counting across fan-in is exercised nowhere.',
 ['src/bin/cernan.rs', 'src/sink/mod.rs', 'src/filter/mod.rs', 'src/source/tcp.rs', 'src/thread.rs', 'src/util.rs'],
 [('shutdown counting', 'src/sink/mod.rs consume, src/filter/mod.rs run'), ('signal handling', 'src/bin/cernan.rs main'), ('join', 'src/thread.rs ThreadPool::shutdown')],
 ['exit status of the daemon', 'bytes received by fake sink peers', 'events seen by recording sinks after staggered upstream shutdowns'],
 RM + 'daemon and in-process topologies stopped at varied points; conservation oracle over the recorded deliveries',
 'Held on the sampled topologies and stop points; a watchdog timeout on exit is a violation only after a bound far above the observed time.')

prop('T03', 'Spilling a queue to disk is invisible to consumers',
 'When a component\'s input queue overflows its memory allowance and spills to disk, its consumer still sees exactly the sequence of events that was sent: same order, none missing or repeated, every field of every event kind (telemetry of each aggregation with its samples, tags, timestamp and persistence; log lines with fields and tags; raw events with metadata and connection id; flush pulses) equal to what was sent. This holds however the sends and receives interleave and however small the memory allowance and the queue files are.',
 ['inputs', 'schedules', 'configurations'],
 'all event values; all memory and file size settings; all producer/consumer interleavings below the configured total capacity',
 'The tests never make a queue spill; serialisation of events is only exercised through the disk path.',
 ['src/metric/event.rs', 'src/metric/telemetry.rs', 'src/metric/logline.rs', 'src/util.rs', 'src/bin/cernan.rs'],
 [('event serialisation', 'derived Serialize/Deserialize in src/metric'), ('queue construction', 'src/bin/cernan.rs'), ('send', 'src/util.rs send')],
 ['events received from a queue of one slot of memory'],
 RM + 'generated events through queues with tiny memory allowances; sequence-equality oracle per producer',
 'Held on the sampled event values, sizes and interleavings; the queue library itself is a vendored dependency and part of what runs.')

prop('T04', 'A full queue sheds and counts, and never blocks the other forwards',
 'When a forward\'s queue has used its whole memory and disk allowance, sending to it returns without waiting, the event is dropped for that forward only, and the drop is counted exactly once. The other forwards of the same producer still receive every event in order. Events counted plus events the full queue accepted equal events sent.',
 ['histories', 'configurations', 'schedules'],
 'all queue limits and all positions of the full queue among the forwards; any number of concurrent producers',
 'No test fills a queue; the drop path and its counter are never executed.',
 ['src/util.rs', 'src/source/internal.rs'],
 [('drop on full', 'src/util.rs send'), ('drop counter', 'src/util.rs UTIL_SEND_HOPPER_ERROR_FULL')],
 ['the drop counter', 'the events received by the healthy forwards', 'completion of every send'],
 RM + 'producers driven past queue capacity; conservation and non-interference oracle',
 'Held on the sampled limits and positions.')

prop('T05', 'Flush pulses: each sink flushes once per due pulse, nothing lost while closed',
 'A sink flushes exactly on those flush pulses whose index is greater than every index it has seen and is a multiple of its flush interval (every new pulse if the interval is 0, never if it has none), however pulses from several upstreams are interleaved, repeated or reordered. While a sink\'s valve is closed it is flushed repeatedly and receives no event; the event waiting for it is delivered once when the valve opens. The flush timer emits pulses with strictly increasing indices to each of its forwards and every event queued before a pulse is delivered before that pulse\'s flush.',
 ['histories', 'schedules', 'inputs'],
 'all sequences of pulses, events and valve states; all flush intervals',
 'The existing tests call flush directly; the pulse de-duplication and the valve loop are never run.',
 ['src/sink/mod.rs', 'src/source/flush.rs', 'src/filter/mod.rs'],
 [('pulse de-duplication', 'src/sink/mod.rs consume'), ('valve loop', 'src/sink/mod.rs consume'), ('pulse source', 'src/source/flush.rs')],
 ['call log of an instrumented sink'],
 RM + 'instrumented sink records its call sequence; a reference model of the pulse rules replays the same input',
 'Held on the sampled pulse sequences.')

prop('T06', 'The running topology is exactly the configured one',
 'For every valid configuration file, events entering at a source reach exactly the sinks and filters reachable over the configured forwards, each path once, with nothing on any other path. A forward that names no configured sink or filter makes cernan refuse to start with a non-zero status instead of running without it, and a component that no component lists as a forward receives no events. This does not depend on the order in which components appear in the file or on their names.',
 ['configurations'],
 'all acyclic configurations over the source, filter and sink kinds',
 'Topology is built in the daemon\'s main, which no test runs.',
 ['src/bin/cernan.rs', 'src/matrix.rs', 'src/config.rs'],
 [('wiring', 'src/bin/cernan.rs main, populate_forwards'), ('adjacency', 'src/matrix.rs')],
 ['bytes received by each fake sink peer per source'],
 RM + 'generated configurations run in the real daemon; reachability oracle over tagged events',
 'Held on the sampled configurations.')

prop('T07', 'A killed cernan starts again with nothing of its past',
 'Whenever cernan is killed (SIGKILL while it starts, under load with queues spilled to disk, or while it stops), starting it again with the same configuration, addresses and data directory works: it starts and listens, every event accepted in the new run reaches the sinks it is routed to, once per path and unaltered by what the earlier run left in its queue files, nothing the earlier run had queued turns up, and a stop ends it with status 0.',
 ['crash_points', 'configurations', 'schedules'],
 'all instants of a kill, all configurations, and any number of kills in a row',
 'No test starts the daemon, and none leaves queue files behind for a next run.',
 ['src/bin/cernan.rs', 'src/source/tcp.rs', 'src/source/file/file_watcher.rs'],
 [('queues opened over leftovers', 'src/bin/cernan.rs main'), ('listening again', 'src/source/tcp.rs init'), ('where reading starts', 'src/source/file/file_watcher.rs new')],
 ['bytes received by each fake sink peer after the restart', 'exit status'],
 RM + 'fault injection (SIGKILL at random instants) and restart of the real daemon; reachability oracle over tagged events',
 'Held on the sampled kill points and configurations.')

prop('C01', 'Every configuration option is honoured, with documented defaults',
 'Parsing a configuration file yields, for each component it declares, exactly the values written there: an option that is absent takes its documented default or the inherited global value (flush interval, tags, data and scripts directory), and a component that is not declared is absent. Options of one component never leak into another, whatever the order of sections and whatever other options are present. Durations in seconds, integer or fractional, become that many seconds of flush pulses. The order of the sections and whether a table is written as a section or inline make no difference.',
 ['configurations', 'inputs'],
 'all combinations of components and options',
 'The tests check one hand-written file per component; inheritance and interaction of options is a product of all of them.',
 ['src/config.rs', 'src/sink/wavefront.rs', 'src/sink/prometheus.rs', 'src/source/flush.rs'],
 [('parser', 'src/config.rs parse_config'), ('defaults', 'Default impls of the component configs')],
 ['the parsed configuration value'],
 RM + 'generated configuration files; every parsed field compared with an independent model of the option table',
 'Held on the sampled configurations.')

prop('I01', 'Statsd: each packet becomes exactly the telemetry its lines mean',
 'Every metric of a well-formed statsd packet (name:value|type with optional sample rate or sign, one or more lines) yields exactly one telemetry with that name, the value scaled by the sample rate, and the aggregation of its type: counters sum; gauges set, or add when signed, and persist; timers and histograms are summarised, with the configured error bound and name-pattern mappings applied. A packet containing a malformed line is counted as bad and contributes nothing, neither to its own output nor to that of any other packet. No packet content, however malformed, stops or crashes the source.',
 ['inputs', 'histories'],
 'all byte strings as packets and all sequences of packets',
 'The tests parse single well-formed or single malformed lines; packets that mix them and sequences of packets are not tested.',
 ['src/protocols/statsd.rs', 'src/source/statsd.rs'],
 [('parser', 'src/protocols/statsd.rs parse_statsd'), ('packet loop', 'src/source/statsd.rs')],
 ['events leaving the source over UDP', 'good and bad packet counters'],
 RM + 'grammar-generated and mutated packets sent over UDP to the real source; independent reference parser as oracle',
 'Held on the sampled packets; loopback UDP is assumed not to drop while few packets are in flight.')

prop('I02', 'Graphite: each line becomes its telemetry, however the stream is chunked',
 'Every complete line "name value timestamp" of up to 1 MiB sent on a graphite connection yields exactly one telemetry with that name, value and timestamp, in line order, and a malformed line yields nothing, is counted bad, and does not affect its neighbours. The result depends only on the bytes of each connection, not on how they were split into writes (inside a line, a number or a multi-byte character), delayed or interleaved with other connections. Closing a connection releases its handler and never disturbs the others.',
 ['inputs', 'schedules', 'histories'],
 'all line contents and all chunkings and interleavings of any number of connections',
 'The tests parse whole lines; no test reads from a socket.',
 ['src/protocols/graphite.rs', 'src/source/graphite.rs', 'src/source/tcp.rs'],
 [('parser', 'src/protocols/graphite.rs parse_graphite'), ('line reader', 'src/source/graphite.rs'), ('acceptor', 'src/source/tcp.rs')],
 ['events leaving the source', 'packet counters', 'live threads and descriptors of the process'],
 RM + 'generated lines over concurrent chunked TCP connections to the real source; per-connection reference parser and resource monitor',
 'Held on the sampled lines and chunkings.')

prop('I03', 'Native ingest: framed payloads decode to the same events under any chunking',
 'Each length-prefixed native payload sent by any client yields exactly the telemetry and log lines it encodes: names, timestamps, tags, aggregation method, persistence and every finite sample, in order. The outcome depends only on the byte stream, not on how it is split over writes, including inside the length prefix, and payloads of different connections never mix. A payload that does not decode yields no event and is counted as a failure, and cernan keeps serving.',
 ['inputs', 'schedules', 'fault_sequences'],
 'all payloads up to the size limit, all chunkings, any number of connections, all malformed payloads',
 'The tests construct already-buffered payloads; partial reads of the prefix and body are timing-dependent.',
 ['src/source/native.rs', 'src/source/nonblocking.rs', 'src/protocols/native.rs', 'src/source/tcp.rs'],
 [('framing', 'src/source/nonblocking.rs'), ('decoding', 'src/source/native.rs handle_stream_payload')],
 ['events leaving the source', 'success and failure counters'],
 RM + 'independently encoded payloads over chunked TCP to the real source; event-equality oracle',
 'Held on the sampled payloads and chunkings.')

prop('I04', 'Avro ingest: payloads pass through intact and are acked only after publication',
 'Each well-formed framed avro payload produces exactly one raw event with the payload\'s bytes unchanged, its shard key as ordering key, its metadata, and avro encoding. A client that asked for synchronous delivery gets its payload\'s id back exactly once, and only after the event has been published or given up downstream (unless cernan stops first); asynchronous payloads are never acknowledged. A malformed or truncated payload, or one that is no avro container, produces no event and no acknowledgement, is counted as a failure, and leaves other connections working.',
 ['inputs', 'schedules', 'fault_sequences'],
 'all payloads, versions, controls and metadata; all chunkings; all delays of the downstream acknowledgement',
 'The tests never connect the source to a sink that acknowledges; malformed headers are not tested.',
 ['src/source/avro.rs', 'src/source/nonblocking.rs', 'src/metric/ackbag.rs'],
 [('header parsing', 'src/source/avro.rs'), ('ack wait', 'src/metric/ackbag.rs wait_for')],
 ['raw events leaving the source', 'bytes written back to each client, with their time relative to the acknowledgement'],
 RM + 'generated payloads over chunked TCP; acknowledgement released by the harness; ordering oracle on ack times',
 'Held on the sampled payloads and delays.')

prop('I05', 'A hostile client cannot take the daemon or other clients down',
 'Whatever bytes clients send to the statsd, graphite, native and avro listeners, including garbage, truncated frames, absurd lengths, abrupt resets and many connections at once, the daemon keeps running and every well-formed message sent by other clients at the same time is still processed exactly once. Connections that ended release their threads and file descriptors. A stop request afterwards still ends the daemon cleanly.',
 ['inputs', 'fault_sequences', 'schedules'],
 'all byte streams, disconnect points and numbers of concurrent hostile clients',
 'No test opens a hostile connection.',
 ['src/source/tcp.rs', 'src/source/nonblocking.rs', 'src/source/avro.rs', 'src/source/native.rs', 'src/source/graphite.rs', 'src/source/statsd.rs', 'src/thread.rs'],
 [('handler threads', 'src/source/tcp.rs'), ('thread pool', 'src/thread.rs')],
 ['daemon liveness and exit status', 'messages of the well-behaved clients at the sink', '/proc task and fd counts of the daemon'],
 RM + 'hostile clients against the real daemon while well-behaved clients\' messages are tracked to the sink; resource monitor',
 'Held on the sampled hostile inputs; resource release is judged after quiescence with a generous bound.')

prop('I06', 'File tailing yields every appended line exactly once, in order',
 'Every line appended to a watched file is emitted exactly once, in order, with its path, its text unchanged (bytes that are no UTF-8 as U+FFFD; blank lines are skipped) and the time it was read at, and nothing added, however the writer splits its writes, also inside a line or a multi-byte character, and however often the file is rotated or new matching files appear. A file is watched from its discovery, which takes up to a polling interval; content it has by then is not replayed. An unterminated last line is emitted once: when its newline arrives, or when the file has been rotated away. A renamed file is read to its end once a successor stands under its path. A file found shorter than before is read again from its start, an unterminated line it had being given up. Lines of different files keep their own paths and order.',
 ['inputs', 'schedules', 'histories'],
 'all contents, write splits, numbers of files and rotation points',
 'The tests use whole-line writes to one file with synchronous polling.',
 ['src/source/file/file_watcher.rs', 'src/source/file/file_server.rs'],
 [('line reader', 'src/source/file/file_watcher.rs read_line'), ('discovery', 'src/source/file/file_server.rs run')],
 ['log lines leaving the source'],
 RM + 'scripted writers against the running file source; exactly-once/FIFO oracle per file',
 'Held on the sampled writers; a truncated file that regrows past its former size before it is looked at, inode reuse and a second rotation before cernan opened the successor are outside the property, and rotated-away names do not match the pattern.')

prop('I07', 'Self-telemetry reports each counted occurrence exactly once',
 'Each occurrence that cernan counts about itself (packets, payloads, bad inputs, deliveries, failures, dropped events) is reported by the internal source exactly once, so that the reports of a counter over a run sum to the number of occurrences, whatever the reporting interval and however many threads count concurrently. Occurrences after the last report before a shutdown need not be reported, and counters that did not move are not. A report has its counter\'s documented name, the current time and sum aggregation; gauges of state report the last value stored, with set aggregation. Telemetry pushed by components is forwarded once, with its metadata as tags.',
 ['schedules', 'histories'],
 'all interleavings of counting and reporting; all counters',
 'Counters are process-global and tests cannot observe the reporter concurrently with them.',
 ['src/source/internal.rs'],
 [('swap and report', 'src/source/internal.rs'), ('queue of full telemetry', 'src/source/internal.rs report_full_telemetry')],
 ['telemetry leaving the internal source'],
 RM + 'threads count concurrently with the reporter; conservation oracle over the reported sums',
 'Held on the sampled schedules and counters.')

prop('M01', 'Aggregating points gives the value its aggregation method means',
 'Combining any sequence of like points yields: for sums the sum of all values, for sets the last value, for summaries a sketch whose count, sum and mean are those of all samples, for histograms per-bin counts of all samples with bounds preserved. Inserting a value into a telemetry is equivalent to adding a telemetry holding only that value. Adding never changes name, tags or timestamp, the result persists as the point added does, and a later point\'s aggregation decides the kind when kinds differ.',
 ['inputs', 'histories'],
 'all sequences of values and aggregation kinds',
 'The tests check a few property-based pairs; sequences and mixed kinds are not compared with a model.',
 ['src/metric/telemetry.rs'],
 [('value addition', 'src/metric/telemetry.rs Add for Value'), ('insert', 'src/metric/telemetry.rs insert')],
 ['queries on the aggregated telemetry'],
 RM + 'random operation sequences replayed against an exact reference model that keeps all samples',
 'Held on the sampled sequences; floating-point sums are compared with a rounding tolerance.')

prop('M02', 'Time bins hold each series\' points by time: none lost, split or mixed',
 'After adding any points in any order, the aggregated view holds exactly one point per distinct (name, tags, time bin), each the aggregation of precisely the points of that bin in arrival order (a persisting point that opens a new bin continues from the bin before it), so no point is lost, counted twice or merged with a different series, whatever the insertion order of its tags. Points of one series are adjacent and come out in time order, and the reported numbers of points and series match. A reset empties everything except that a series whose last point persists carries that point over to the current time.',
 ['inputs', 'histories'],
 'all sequences of points, bin widths and resets',
 'The tests use short sequences with few series; hash-order effects of tags depend on insertion order.',
 ['src/buckets.rs', 'src/metric/telemetry.rs', 'src/metric/mod.rs'],
 [('bucket insertion', 'src/buckets.rs add'), ('reset', 'src/buckets.rs reset'), ('ordering', 'src/metric/telemetry.rs within')],
 ['iteration over the buckets'],
 RM + 'random add/reset histories compared with a map-based reference model',
 'Held on the sampled histories; times before the epoch are outside the workload.')

prop('M03', 'Tags: point tags win over defaults, overlays win over both',
 'The tags visible on a point or log line are its own tags plus every default tag whose key it does not carry, each key exactly once. Overlaying replaces the values of existing keys and adds the others; inserting and removing return the previous value; nothing else changes. Two points with the same name and the same tags are the same series (equal, same hash, same bin) however their tags were inserted or removed before.',
 ['inputs', 'histories'],
 'all tag maps, defaults, and sequences of tag operations',
 'The tests use maps of one or two tags, for which hash order cannot matter.',
 ['src/metric/mod.rs', 'src/metric/telemetry.rs', 'src/metric/logline.rs'],
 [('tag iteration', 'src/metric/mod.rs TagIter'), ('hashes', 'src/metric/telemetry.rs hash, name_tag_hash'), ('comparison', 'src/metric/mod.rs cmp_tagmap')],
 ['tag iteration, lookups and hashes'],
 RM + 'random tag operation sequences against an ordered-map model; identity checked across insertion orders',
 'Held on the sampled operation sequences.')

prop('M04', 'Quantiles stay within their error bound and histograms count every sample',
 'A summary queried at any percentile returns one of the samples it was given, and that sample\'s rank among all of them is within twice the configured error bound of the requested rank, whether the samples were inserted or arrived as single-sample points. Its count, sum and mean cover every sample. A histogram\'s bin counts exactly the samples above the previous bound and up to its own, and the bins sum to the number of samples however partial histograms were merged.',
 ['inputs', 'histories'],
 'all sample sequences, error bounds, percentiles and orders of arrival',
 'The tests query a handful of values.',
 ['src/metric/telemetry.rs'],
 [('summary', 'src/metric/telemetry.rs Value::Quantiles'), ('histogram', 'src/metric/telemetry.rs Value::Histogram')],
 ['query and bins results'],
 RM + 'random samples with exact rank computation as oracle',
 'Held on the sampled sequences; the sketch library is a vendored dependency and part of what runs (it exceeds its own nominal bound slightly, hence the factor two).')

prop('F01', 'The delay filter passes exactly the events within its tolerance',
 'A delay filter forwards, unchanged and in order, every telemetry and log line whose timestamp differs from the current time by at most its tolerance and drops every other one, whatever their timestamps, including extreme ones. Raw events and flush pulses are always forwarded. Nothing is duplicated, altered or held back.',
 ['inputs', 'histories'],
 'all timestamps, tolerances and event sequences',
 'The tests do not cover extreme timestamps or mixed sequences.',
 ['src/filter/delay_filter.rs'],
 [('tolerance test', 'src/filter/delay_filter.rs process')],
 ['events emitted by the filter'],
 RM + 'generated event sequences through the filter; reference predicate as oracle',
 'Held on the sampled sequences.')

prop('F02', 'The flush-boundary filter holds events until their boundary and loses none',
 'A flush-boundary filter releases each telemetry and log line it received exactly once, unchanged, at the first new flush pulse at which more pulses than its tolerance (100 pulses per second of tolerance) have passed since the first event of its time bin arrived, before that pulse itself is passed on. Events of one time bin keep their order, raw events pass through, and repeated pulses release nothing twice. At shutdown everything still held is released before the end of the stream.',
 ['histories', 'inputs'],
 'all sequences of events, pulses and tolerances; all shutdown points',
 'The tests use short fixed sequences and never shut the filter down with events held.',
 ['src/filter/flush_boundary_filter.rs', 'src/filter/mod.rs'],
 [('hold and release', 'src/filter/flush_boundary_filter.rs process')],
 ['events emitted by the filter'],
 RM + 'generated event/pulse sequences; exactly-once and release-time oracle',
 'Held on the sampled sequences.')

prop('F03', 'JSON encoding is valid, complete, and follows the precedence rules',
 'Each log line becomes exactly one raw event whose bytes are a JSON object containing the line\'s time, path, tags (with defaults) and fields, and either its message text or, when parsing is on and the text is a JSON object, that object\'s members; on key clashes parsed members win over fields and fields over metadata. This holds for any text, including quotes, control characters, non-ASCII and nested JSON. All other events pass through unchanged.',
 ['inputs'],
 'all log line contents, fields, tags and configurations',
 'The tests encode four fixed lines.',
 ['src/filter/json_encode_filter.rs'],
 [('merge', 'src/filter/json_encode_filter.rs process, merge_objects')],
 ['raw events emitted by the filter'],
 RM + 'generated log lines; output decoded by an independent JSON reader and compared with the precedence model',
 'Held on the sampled lines.')

prop('F04', 'Programmable filter: script operations have exactly their documented effect',
 'Every operation a script performs on its payload (reading or changing names, values, tags, fields and paths; pushing, clearing logs and metrics; querying summaries) has exactly its documented effect on the addressed log or metric and no other, with positive and negative indices. What is in the payload when the script returns is emitted once each, logs and metrics in order; nothing else is. Globals of the script persist from call to call, and ticks happen once per new flush pulse, a pulse no newer than one seen before being swallowed.',
 ['programs', 'inputs', 'histories'],
 'all sequences of payload operations and inputs',
 'The tests run fixed small scripts.',
 ['src/filter/programmable_filter.rs'],
 [('payload functions', 'src/filter/programmable_filter.rs PAYLOAD_LIB'), ('emission', 'src/filter/programmable_filter.rs run_lua_func')],
 ['events emitted by the filter', 'values returned to the script'],
 RM + 'generated Lua scripts run by the real filter against a reference model of the payload',
 'Held on the sampled scripts.')

prop('F05', 'A failing or hostile script never corrupts or stops the filter',
 'Whatever a script does in a call (raise errors, use wrong argument types or out-of-range indices, recurse, miss a function), the filter survives, reports each failure as exactly one failure telemetry naming the filter and function, forwards the flush pulse, and treats the next event as if the failure had not happened. Calls leave no residue: after any number of events the interpreter\'s stack is as deep as before. No memory outside the payload is read or written.',
 ['programs', 'inputs', 'histories'],
 'all scripts that terminate; any number of events',
 'The tests run each script for one or two events, without sanitizers.',
 ['src/filter/programmable_filter.rs', 'src/filter/mod.rs'],
 [('protected call', 'src/filter/programmable_filter.rs run_lua_func'), ('error path', 'src/filter/mod.rs run')],
 ['events emitted by the filter', 'sanitizer and Lua API-check reports', 'the interpreter stack depth'],
 RM + 'hostile scripts over long event runs, with Lua API checking and AddressSanitizer; failure-count and survival oracle',
 'Held on the sampled scripts; scripts that keep the payload after their call are outside the property.')

prop('S01', 'Wavefront output: one well-formed line per aggregated point',
 'At each flush the wavefront sink sends, for every bin of every series received since the last one, exactly the lines that bin stands for (one for a set or sum; one per configured percentile, a count and a mean for a summary; one per bin for a histogram), each a well-formed "name value timestamp tags" line (names and tags being free of white space) with the bin\'s aggregated value, the bin\'s time and the point\'s tags over the configured ones. A persisting series is sent again at each flush with the time of that flush. Where padding is configured for a kind and two neighbouring points of a series, or a point and the last one of earlier flushes, are more than one bin width apart, zero lines of the series\' own shape are sent one second after the earlier point and, if there is room, one before the later; nothing else is sent. Points older than the age threshold are dropped and all others appear exactly once over all flushes, however extreme their timestamps. The valve closes on many unsent points and opens after a flush.',
 ['inputs', 'histories', 'configurations'],
 'all points, bin widths, padding settings and flush points',
 'The tests compare the text for one fixed set of points per feature.',
 ['src/sink/wavefront.rs', 'src/buckets.rs'],
 [('formatting', 'src/sink/wavefront.rs format_stats'), ('padding', 'src/sink/wavefront.rs padding'), ('age', 'src/sink/wavefront.rs deliver')],
 ['lines received by a fake wavefront proxy'],
 RM + 'generated point histories through the sink to a fake proxy; reference model of lines, padding and values',
 'Held on the sampled histories.')

prop('S02', 'Wavefront delivery survives reconnects without losing lines',
 'Every line of a flush reaches the wavefront proxy at least once even if the connection is refused, reset or closed at any time between or during flushes, once a connection can be made again. After a reconnect whole lines are sent: the proxy never sees a line spliced from two. Without connection trouble each line arrives exactly once.',
 ['fault_sequences', 'histories'],
 'all points at which the peer refuses, closes or resets',
 'No test connects the sink to a peer.',
 ['src/sink/wavefront.rs'],
 [('connect and retry', 'src/sink/wavefront.rs flush, connect')],
 ['lines received by a fake proxy over all its connections'],
 RM + 'fault-injecting fake proxy; at-least-once/exactly-once oracle over the received lines',
 'Held on the sampled fault points; bytes accepted by the kernel before an unseen close cannot be detected by the sender and are outside the property.',
 level='fault_enumeration')

prop('S03', 'Prometheus scrape shows every live series with its true aggregate',
 'A scrape, at any time and by any number of clients, gets a complete HTTP response, compressed if so configured, with text in valid exposition format: exactly one family per metric name, with one type and all its series together, and one sample set per series (its name, with characters outside Prometheus\' set replaced, and its tags over the configured ones): sums and sets as their current aggregate; summaries with quantiles over the configured window and the count and sum of all samples received; histograms with cumulative buckets ending in +Inf equal to the count. The first point of a name fixes its kind; points of another kind, or beyond the age threshold, are left out. Every scrape shows the state after some prefix of the points delivered, no earlier than those delivered before the request; points never disappear, double or change because of scrapes, well-formed or not. (Names stay distinct after replacement, and tag keys are valid label names other than le and quantile.)',
 ['inputs', 'schedules', 'histories'],
 'all point histories, scrape times and concurrent scrapers',
 'The tests format fixed points; none scrapes the HTTP endpoint while points arrive.',
 ['src/sink/prometheus.rs', 'src/http.rs', 'src/protocols/prometheus.rs'],
 [('aggregation', 'src/sink/prometheus.rs PrometheusAggr'), ('rendering', 'src/sink/prometheus.rs write_text, write_binary'), ('server', 'src/http.rs')],
 ['HTTP responses'],
 RM + 'points delivered to the running sink while scrapers read; independent exposition-format parser and reference aggregates',
 'Held on the sampled histories.')

prop('S04', 'InfluxDB: every point is written in valid line protocol, retried until accepted',
 'Each point delivered to the influx sink is written as one line per value (one for a set or sum, one per percentile for a summary, one per bin for a histogram) in valid line protocol, its name and tags escaped, with its value and timestamp, in a write request to the configured database; values that are not finite, and empty tags, which the protocol cannot express, are left out. A request that fails (refused, connection lost, 4xx or 5xx) is retried unchanged until it is accepted, so that each point is accepted at least once and, without failures, exactly once. Nothing is written that was not delivered.',
 ['inputs', 'fault_sequences'],
 'all points, tags and sequences of server responses',
 'The tests compare the text of fixed points; no test runs a server.',
 ['src/sink/influxdb.rs'],
 [('formatting', 'src/sink/influxdb.rs format_stats'), ('retry loop', 'src/sink/influxdb.rs flush')],
 ['requests received by a fake InfluxDB'],
 RM + 'fake InfluxDB with scripted failures; independent line-protocol parser and conservation oracle',
 'Held on the sampled points and failure scripts.',
 level='fault_enumeration')

prop('S05', 'Elasticsearch: each line is indexed once and retried by its own outcome',
 'Each log line delivered to the elasticsearch sink is sent as one well-formed bulk index action into the index of its day with its text, path, time, tags and fields (a field taking the place of a tag of its name). Lines the server accepted are never sent again; lines it rejected are sent again with the same id until they have been rejected more often than the attempt limit; lines the response does not mention and all lines of a request that failed as a whole (refused, connection lost, error status, unreadable response) are sent again with the same id and lose no attempt. Accepted and rejected items are counted. Any response, however mixed, reordered, incomplete or unexpected its items, leaves the other lines\' fate unaffected and never crashes the sink. (Tag and field names differ from uuid, path, payload and timestamp.)',
 ['inputs', 'fault_sequences', 'histories'],
 'all lines and all sequences of bulk responses',
 'No test runs a bulk server.',
 ['src/sink/elasticsearch.rs'],
 [('bulk request', 'src/sink/elasticsearch.rs bulk_body, flush'), ('retry by item', 'src/sink/elasticsearch.rs flush')],
 ['bulk requests received by a fake server', 'delivery counters'],
 RM + 'fake bulk server with scripted per-item outcomes; per-line state-machine oracle',
 'Held on the sampled lines and response scripts.',
 level='fault_enumeration')

prop('S06', 'Kafka: each raw event is published once or retried, then acknowledged',
 'Each raw event delivered to the kafka sink is published to the configured topic with its exact bytes, its ordering key and its metadata as headers (bytes of a key that a header name cannot carry as U+FFFD). A retryable broker error leads to publication being tried again with the same key, payload and headers until it succeeds; any other error, a lost connection to the broker and an event above the size limit are counted as failures. The event\'s client is acknowledged exactly once, only after its outcome is final, and the sink stops accepting events while too many bytes are in flight.',
 ['inputs', 'fault_sequences', 'schedules'],
 'all events and all sequences of broker responses',
 'The tests use a mock producer; no test speaks the protocol to a broker.',
 ['src/sink/kafka.rs', 'src/metric/ackbag.rs'],
 [('publication', 'src/sink/kafka.rs deliver_raw'), ('retry', 'src/sink/kafka.rs flush, await_inflight_messages'), ('valve', 'src/sink/kafka.rs valve_state')],
 ['records received by a fake broker', 'acknowledgements', 'publication counters'],
 RM + 'fake kafka broker with scripted produce errors; conservation and ack-order oracle',
 'Held on the sampled events and error scripts.',
 level='fault_enumeration')

prop('S07', 'Native transport between two cernans preserves events end to end',
 'Telemetry and log lines flushed by a native sink arrive at a native source with the same name or path, value or samples (up to the size at which a summary drops samples), aggregation, timestamp, tags (own tags over the sink\'s defaults) and persistence, each exactly once, the points and the lines of a flush in the order they were delivered and flushes in turn. A receiver that is unreachable, or that closed or reset the connection since the last flush, costs nothing: the flush reconnects and delivers all of it once. A connection that breaks during a flush loses at most what the kernel had taken, and everything later in the flush still arrives. A flush of any size gets through, an event too large for any payload is dropped alone, and a flush of nothing sends nothing.',
 ['inputs', 'fault_sequences', 'histories'],
 'all events; all disconnect points; all flush patterns',
 'No test connects the sink to the source.',
 ['src/sink/native.rs', 'src/source/native.rs', 'src/protocols/native.rs'],
 [('encoding', 'src/sink/native.rs flush'), ('decoding', 'src/source/native.rs')],
 ['events leaving the receiving source', 'bytes on the wire'],
 RM + 'events through the real sink, a fault-injecting relay and the real source; field-equality and conservation oracle',
 'Held on the sampled events and fault points.',
 level='fault_enumeration')

prop('S08', 'Console sink prints every aggregated point and log line',
 'At every flush and at shutdown the console sink prints each log line received with its time, path and tags, and for each series and bin received since the last flush its name and every value of its aggregation (with its time, except for summaries), exactly once; a persisting series is printed again at each flush. Values are those of the aggregation over the bin. Whatever the content and timestamps, printing does not stop the sink.',
 ['inputs', 'histories'],
 'all points and lines',
 'No test looks at the printed output.',
 ['src/sink/console.rs'],
 [('printing', 'src/sink/console.rs flush')],
 ['standard output of the process'],
 RM + 'generated points through the sink in a child process; printed output parsed and compared with the reference aggregates',
 'Held on the sampled points.')
