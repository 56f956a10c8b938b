#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Every response is delivered to the request that caused it",
  "In every history of calls on one connection, everything a call hands back (rows, column and summary metadata, failure) is the server's answer to the request that very call made, never a leftover of an earlier query, failed pipeline, abandoned result, refused parameter or previous user of a pooled connection. Whenever no result is open on a usable connection, every request sent has been answered and every answer has been read, so the next call starts on a clean stream.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of API calls (query, exec, pipeline, prepared statements, transactions, early close, unencodable parameters) times all server outcomes of every request",
  "The recorded tests replay about 30 fixed sessions with one outcome each; alignment of the request and response streams depends on which earlier calls were abandoned, failed or refused, and where.",
  ["conn.go", "stmt.go", "rows.go", "tx.go"],
  [("consume/consumeAll/ackFailure read exactly the outstanding responses", "conn.go"), ("drain or discard on close", "rows.go Close, stmt.go Close")],
  [("outstanding responses", "responses still owed by the server for requests already written", "implicit: network stream position"), ("rows.consumed / finishedConsume", "whether a stream was requested / fully read", "rows.go")],
  ["values returned by the API vs. tags the server put in each response", "requests seen by the server"])

p("C02", "Result rows are complete, in order, and end only when the server ends them",
  "Iterating a result yields exactly the records the server sent for that query, in the server's order, each exactly once, whether read one at a time or all at once. End-of-results, with the server's own summary metadata, is reported only after the server's final success message for that query, and asking again after the end reports the end again instead of waiting on the connection.",
  ["inputs", "histories"],
  "every number and content of records, every mix of one-at-a-time, read-all and sql-style iteration, every position at which iteration stops and resumes",
  "Tests read a handful of small results to the end; none reads past the end, mixes access styles or checks order across a long stream.",
  ["rows.go", "conn.go"],
  [("NextNeo / All / Next", "rows.go"), ("consume", "conn.go")],
  [("finishedConsume", "server's final message seen", "rows.go")],
  ["Rows.NextNeo, Rows.All, QueryNeoAll, driver.Rows.Next"])

p("C03", "A server failure surfaces as itself and leaves the connection usable",
  "Whenever the server answers a request with a failure, at whatever point (running, streaming after some records, discarding, any position in a pipeline, begin, commit, rollback), the call that meets it returns an error whose innermost error is that failure with its metadata. The failure is acknowledged exactly once (falling back to a session reset if the acknowledgement is itself refused), and afterwards the same connection runs further work and can be closed without blocking.",
  ["histories", "fault_sequences"],
  "every request kind x every failure position x every following call, including refusal of the acknowledgement",
  "Only failures of RUN are recorded; failures while streaming, in the middle of pipelines or while closing are never exercised.",
  ["conn.go", "rows.go", "stmt.go", "tx.go", "errors/errors.go"],
  [("ackFailure / reset", "conn.go"), ("errors.Wrap / InnerMost", "errors/errors.go")],
  [("server FAILED state", "server ignores everything until the failure is acknowledged", "server side")],
  ["error chains returned by the API", "ACK_FAILURE / RESET seen by the server", "results of later calls"])

p("C04", "Closing a result or statement early is safe, prompt and idempotent",
  "Rows, pipeline rows, statements and connections may be closed at any point of a result (before the first row, between rows, after the end, in the middle of a pipeline, after an error) and any number of times. Closing consumes or discards exactly what is still outstanding, never waits for data the server will not send, and whatever it returns the connection is then free for the next statement.",
  ["histories", "fault_sequences"],
  "every stream position x every handle that can be closed x every server outcome met while draining",
  "The tests close early at three fixed positions and never close twice, never close an older pipeline handle, and never meet a failure while draining.",
  ["rows.go", "stmt.go", "conn.go"],
  [("rows.Close drain / DISCARD_ALL", "rows.go"), ("stmt.Close", "stmt.go"), ("conn.Close", "conn.go")],
  [("closed flags", "handle already closed", "rows.go, stmt.go, conn.go")],
  ["Close return and duration", "DISCARD_ALL seen by the server", "next statement on the connection"])

p("C05", "A lost or corrupted connection is reported and never used again",
  "If the connection breaks, times out or delivers an undecodable message at any byte of any response, the call in progress returns an error (never a clean end of results, partial success or panic), and for a lost or timed-out connection its innermost error is driver.ErrBadConn. From then on every operation on that connection that needs the server fails immediately, nothing more is read from or written to it, and a pool never hands it out again.",
  ["fault_sequences", "histories", "crash_points"],
  "every response of every call x {connection cut between messages, cut inside a message, silence beyond the timeout, malformed message} x every following call",
  "No test injects any network fault; the only bad-connection test needs a live database and is skipped.",
  ["conn.go", "rows.go", "driver.go", "encoding/decoder.go"],
  [("Read/Write error capture", "conn.go"), ("reclaim replaces bad connections", "driver.go")],
  [("connErr", "the connection has failed", "conn.go")],
  ["error chains", "bytes reaching the server after the fault", "identity of the connection the pool hands out next"])

p("C06", "Transactions commit exactly when confirmed and never outlive their connection",
  "Commit or Rollback returns success only if the server confirmed that very request, and each is sent at most once per call, after any open result of the transaction has been finished. At most one transaction is open on a connection (a second Begin is refused), a finished transaction refuses further Commit or Rollback, and closing a connection with an open transaction rolls it back, or drops the physical connection if that fails, so no later user of the connection ever runs inside it.",
  ["histories", "fault_sequences"],
  "every interleaving of begin/statement/result/commit/rollback/close calls x every server outcome",
  "Two recorded sessions (one commit, one rollback) with all-success outcomes; nesting, closing with an open transaction, failed commit and pooling with a transaction are untested.",
  ["tx.go", "conn.go", "driver.go"],
  [("Begin guard / Close rollback", "conn.go"), ("Commit/Rollback", "tx.go")],
  [("open transaction", "transaction begun and not finished", "conn.go, tx.go")],
  ["BEGIN/COMMIT/ROLLBACK seen by the server and the server's open-transaction flag", "return values"])

p("C07", "One open statement or result per connection; misuse is refused without effect",
  "A connection carries at most one open statement and a statement at most one open result: attempts to start another query, statement, pipeline or transaction meanwhile, or to use a closed connection, statement, result or transaction, return an error. A refused call sends nothing to the server, does not disturb the open result (its remaining rows still arrive intact) and leaves the connection as it was.",
  ["histories"],
  "every API call in every combination of open/closed connection, statement, result and transaction",
  "Tests use the API in its intended order; almost no refused call is made, and none checks what the refusal leaves behind.",
  ["conn.go", "stmt.go", "rows.go", "tx.go"],
  [("open-statement/closed guards", "conn.go, stmt.go, rows.go, tx.go")],
  [("conn.statement, stmt.rows", "the open statement / result", "conn.go, stmt.go")],
  ["errors returned", "messages seen by the server during refused calls"])

p("C08", "Pipelined queries return their own results, in order, all or error",
  "A pipeline sends each query with its own parameters in the given order and result i always belongs to query i: an executed pipeline returns one summary per query, and a queried pipeline returns each query's columns and rows followed by the next query's result set until the last. If query k fails, the results before k are still readable in order, the failure is reported at k, and nothing of the pipeline remains pending; a wrong number of parameter sets or an unencodable parameter is refused before anything is sent.",
  ["inputs", "histories", "fault_sequences"],
  "every pipeline length, every number of records per query, every failing position, every point of abandonment",
  "Recorded pipelines have three queries with fixed results and only ever fail at the first query.",
  ["stmt.go", "rows.go", "conn.go"],
  [("ExecPipeline/QueryPipeline", "stmt.go"), ("NextPipeline", "rows.go")],
  [("pipelineIndex", "which query's rows are being read", "rows.go")],
  ["results, columns and rows by tag", "RUN/PULL_ALL sequence seen by the server"])

p("C09", "A pooled connection has at most one holder and the pool never exceeds its size",
  "At any moment two connections obtained from the pool and not yet closed never share a physical server connection, and the pool never has more physical connections in use than its configured maximum, for any number of concurrent users. A handle that was closed is inert: closing it again or calling it does nothing to the connection its successor now uses.",
  ["schedules", "histories"],
  "every interleaving of concurrent opens, uses, closes, double closes and use-after-close, with failures at any point",
  "All pool tests need a live database and are skipped; none covers double close or stale handles.",
  ["driver.go", "conn.go"],
  [("pool channel", "driver.go OpenPool/reclaim"), ("Close returns to pool", "conn.go Close")],
  [("pool slots", "connections available", "driver.go"), ("holders", "handles open and not closed", "user side")],
  ["server-side connection identity answered to each handle", "number of simultaneously open server connections"])

p("C10", "Every pool slot comes back: opens block only while all are in use",
  "Each connection taken from the pool gives its slot back when closed, whatever state it is in (broken, open result, open transaction, failed rollback, session dropped after a refused reset), and a failed open gives its slot back at once. Hence an open blocks only while the maximum number of connections is really in use, a blocked open proceeds as soon as one is closed, and connections that are replaced are closed so that none is leaked.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence of opens, failures and closes, of any length, by any number of users",
  "Leaks appear only after failures at particular points followed by more opens than slots; no pool test runs without a database.",
  ["driver.go", "conn.go"],
  [("reclaim", "driver.go"), ("Close", "conn.go"), ("initialize error paths", "conn.go")],
  [("free slots + holders = max", "conservation", "driver.go")],
  ["whether OpenPool returns or blocks", "open sockets seen by the server"])

p("C11", "A connection from the pool is ready and carries nothing from its last user",
  "A connection handed out by the pool has completed handshake and authentication successfully and has not failed before: one whose initialization was refused, or that was lost, timed out or was corrupted in earlier use, is replaced instead of being handed out. The previous user's unread results, open statement, open transaction, pending failure or settings (timeout, chunk size) never affect the next user.",
  ["histories", "fault_sequences"],
  "every way a user can leave a connection (mid-stream, in a transaction, failed, broken) x every outcome of (re)initialization x every next user",
  "Pool tests are skipped without a database and reuse only cleanly used connections.",
  ["driver.go", "conn.go"],
  [("OpenPool liveness check + initialize", "driver.go"), ("Close cleans up before reclaim", "conn.go")],
  [("connErr, closed", "connection not reusable", "conn.go")],
  ["first call of the next user", "INIT seen per physical connection"])

p("C12", "Closing the pool closes every physical connection and refuses new ones",
  "After a pool is closed, every physical connection it ever opened is closed, including those in use or returned later, further opens return an error, and handles still held fail with errors and can themselves be closed without blocking or panicking.",
  ["schedules", "histories"],
  "every number of idle, in-use and replaced connections at the time of closing, and every later call",
  "The only pool-close test needs a database, holds one connection and checks only that no error is returned.",
  ["driver.go", "conn.go"],
  [("boltDriverPool.Close", "driver.go")],
  [("connRefs", "connections opened by the pool", "driver.go"), ("closed", "pool closed", "driver.go")],
  ["server-side socket closes", "OpenPool error", "calls on held handles"])

p("C13", "Any supported value survives encoding and decoding unchanged",
  "For every value built from nil, booleans, integers, floats, strings, lists, string-keyed maps and graph structures, of any size and nesting, decoding its encoding gives back the same value, with all integer types as int64, float32/float64 as float64 and any slice as a list. This holds at every size, including all boundaries between encoding size classes, whatever the chunk size.",
  ["inputs"],
  "all values; every length in and around every size class of strings, lists and maps; every int64 boundary; nested combinations; every chunk size",
  "The encoder tests compare against a copy of the encoder's own code and never decode; lengths 128-255 and 32768-65535 are never decoded.",
  ["encoding/encoder.go", "encoding/decoder.go", "structures/graph"],
  [("size-class switch", "encoder.go"), ("marker switch", "decoder.go")],
  [], ["encoding.Marshal / Unmarshal", "parameters and rows through a server that echoes"])

p("C14", "Bytes on the wire are the PackStream encoding, in its shortest form",
  "Every value or message sent is encoded byte for byte as PackStream v1 prescribes, using the smallest marker that fits (tiny, 8, 16, 32, 64-bit), with the correct signature and fields for each message and structure. Values that cannot be represented (unsupported types, unsigned 64-bit integers beyond the signed maximum) are refused with an error instead of being altered.",
  ["inputs"],
  "all values and messages; every size-class boundary; unsupported values at any nesting depth",
  "Replay of recordings checks only how many bytes are written, not which; encoder tests repeat the implementation.",
  ["encoding/encoder.go", "structures/messages", "structures/graph"],
  [("encodeInt/String/Slice/Map/Structure", "encoder.go"), ("AllFields/Signature", "structures")],
  [], ["bytes produced by encoding.Marshal / Encoder", "bytes received by the server for each request"])

p("C15", "Decoding is total: any bytes give the exact value or an error",
  "Decoding any byte sequence terminates with either the exact value those bytes denote in PackStream (in any valid representation, not only the shortest) or an error; it never panics, never allocates out of proportion to the input, and never returns a shortened, partial or substituted value for truncated or ill-typed data. In particular a truncated or ill-formed message is never mistaken for a normal end of results.",
  ["inputs", "fault_sequences"],
  "all byte strings: every marker, every truncation point of every valid encoding, every ill-typed structure field, hostile declared sizes",
  "No test decodes malformed input; the recordings are all well-formed.",
  ["encoding/decoder.go", "encoding/util.go"],
  [("decode", "decoder.go"), ("sliceInterfaceTo*", "util.go")],
  [], ["encoding.Unmarshal / Decoder results", "API calls receiving such messages"])

p("C16", "Every message is framed as well-formed chunks; a refused one writes nothing",
  "For every message and every configured chunk size, what is written is a sequence of chunks, each with a non-zero length header equal to the bytes that follow and no longer than the configured size, whose concatenation is exactly the message, followed by exactly one end marker. If a message cannot be encoded nothing of it is written and the encoder and connection remain usable for the next message.",
  ["inputs", "histories"],
  "all message sizes (including above 65535 bytes and written in one or many pieces) x all chunk sizes 1..65535 x unencodable values at any position",
  "Tests use one chunk size below the maximum and messages that fit; no message needs three maximum-size chunks or fails half way.",
  ["encoding/encoder.go", "conn.go"],
  [("Encoder.Write / flush", "encoder.go")],
  [("buffered bytes", "payload not yet framed", "encoder.go")],
  ["raw bytes written by Encoder", "raw bytes received by the server"])

p("C17", "Decoding is independent of how the bytes are chunked and delivered",
  "A message decodes to the same value however the sender splits it into chunks and however the network splits the bytes into reads (down to single bytes, in the middle of headers, or with several messages in one read), and the decoder consumes exactly that message, so that following messages decode correctly too. The same holds for the handshake reply.",
  ["inputs", "schedules"],
  "all chunk partitions x all read fragmentations x all message sequences",
  "Recorded replay hands every read exactly the bytes it asks for in a single piece.",
  ["encoding/decoder.go", "conn.go"],
  [("Decoder.read/readData", "decoder.go"), ("handShake", "conn.go")],
  [], ["Decoder over a fragmenting reader", "API calls over a fragmenting server"])

p("C18", "A connection opens only after a successful handshake and authentication",
  "Opening sends the Bolt preamble with the supported versions, then exactly one initialization request, and succeeds only if the server selected a version the driver offered and accepted the initialization. In every other case (no or unknown version, truncated or delayed reply, authentication failure, unexpected message, lost connection) opening returns an error, the server's failure being the innermost error when it sent one, and the network connection is closed.",
  ["fault_sequences", "configurations"],
  "every server behaviour at every step of opening, for plain and pooled drivers",
  "Recordings contain only successful openings.",
  ["conn.go", "driver.go", "structures/messages/init.go"],
  [("initialize/handShake/sendInit", "conn.go")],
  [("serverVersion", "version selected by the server", "conn.go")],
  ["OpenNeo/Open/OpenPool result", "bytes received by the server", "socket closed"])

p("C19", "Connection strings mean what they say; invalid ones are refused before use",
  "Host, port, user, password and options of a bolt:// connection string are used exactly as given: credentials are sent as basic authentication, or none when absent, the timeout in seconds bounds network waits, and tls options select encryption. Any other scheme, a user without a password, or a non-integer timeout is refused with an error and without contacting the server.",
  ["inputs", "configurations"],
  "all combinations of scheme spelling, credentials (with reserved, encoded and empty parts), timeout and option values",
  "One test parses five strings; it never observes what is sent to the server.",
  ["conn.go", "structures/messages/init.go"],
  [("parseURL", "conn.go"), ("NewInitMessage", "init.go")],
  [], ["auth token received by the server", "open error", "connections accepted by the server"])

p("C20", "With TLS requested nothing is sent in clear and certificates are verified",
  "When the connection string asks for TLS, no Bolt byte is ever sent unencrypted, and the connection opens only if the server's certificate is valid for the host under the configured or system authorities, unless verification was explicitly switched off. A configured client certificate is presented, and unusable certificate files or a certificate without its key make opening fail.",
  ["configurations", "fault_sequences"],
  "all combinations of tls, no-verify, CA file, client certificate and key options x server certificate kinds (trusted, untrusted, wrong host, plain-text server)",
  "No test opens a TLS connection.",
  ["conn.go"],
  [("tlsConfig / createConn", "conn.go")],
  [], ["first bytes seen by a plain server", "open result against each kind of server certificate"])

p("C21", "The database/sql interface carries the same values and parameters",
  "Through the sql interface, parameters given as encoded maps reach the server merged and unchanged (later arguments win), anything else is refused with an error and nothing is sent, and each returned column holds the same value the native interface gives: scalars as sql driver values, and lists, maps, nodes, relationships and paths as encoded bytes that decode to that value. A result whose row width differs from its columns yields an error, not a panic or a value of an earlier row.",
  ["inputs"],
  "all parameter lists and all result values in all columns, through driver-level and database/sql-level calls",
  "The only sql test needs a database and is skipped.",
  ["util.go", "rows.go", "conn.go", "stmt.go"],
  [("driverArgsToMap", "util.go"), ("Rows.Next", "rows.go")],
  [], ["parameters received by the server", "dest values"])

p("C22", "Summaries and columns report exactly what the server reported",
  "Rows affected is the sum of nodes and relationships created and deleted that the server reported, zero when it reported none, and an error (never a panic or a wrong number) when those counters are malformed; the last insert id is always -1. Columns are exactly the field names the server gave, in order, and metadata is passed through unchanged.",
  ["inputs"],
  "all combinations of present, absent, zero, negative, large and ill-typed counters and fields",
  "Tests check a few fixed summaries.",
  ["result.go", "rows.go"],
  [("RowsAffected", "result.go"), ("Columns", "rows.go")],
  [], ["Result and Rows accessors"])

p("C23", "No call waits longer than the configured timeout on a silent peer",
  "Whatever the peer does or stops doing (at connect, TLS handshake, Bolt handshake, initialization, any response, mid-message, or not reading what is sent), every API call returns within the configured timeout per network wait and reports an error. The timeout from the connection string or set on the connection applies to every subsequent wait, and a peer that answers in time is never timed out.",
  ["fault_sequences", "schedules"],
  "every wait of every call x silence at that wait",
  "No test has a silent peer.",
  ["conn.go"],
  [("SetReadDeadline/SetWriteDeadline per operation", "conn.go Read/Write"), ("DialTimeout", "conn.go createConn")],
  [("timeout", "configured timeout", "conn.go")],
  ["duration of the call", "error"])

p("C24", "Drivers and pools are safe for concurrent use",
  "Any number of goroutines may open connections from one driver or one pool, use their own connections, return them and close the pool concurrently: no data race, deadlock, lost wake-up or panic occurs, every caller gets its own results, and once all users are done every slot is free again.",
  ["schedules"],
  "all interleavings of concurrent opens, queries, closes and pool closing",
  "The concurrent pool tests are skipped without a database and use one scripted interleaving.",
  ["driver.go", "conn.go"],
  [("refLock + channel", "driver.go")],
  [("pool, connRefs, closed", "shared pool state", "driver.go")],
  ["race detector", "recorded histories checked against the pool specification"])

p("C25", "Replaying a recorded session reproduces it and rejects deviations",
  "A session recorded from a live connection and replayed gives the client exactly the bytes it received, in the same order relative to its own writes, however reads and writes were fragmented while recording. Replay reports an error, and never panics, when the client reads or writes more, less or in a different order than recorded, including data left over at close.",
  ["inputs", "histories"],
  "all recorded event sequences and fragmentations x all replayed read/write sequences",
  "The recorder is only used as test infrastructure with one fragmentation; deviations are never replayed.",
  ["recorder.go"],
  [("record/Read/Write/Close", "recorder.go")],
  [("events, currentEvent", "recorded exchange and replay position", "recorder.go")],
  ["bytes and errors of replay"], "in-package overlay test (the recorder is unexported)")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
