#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line). Kept as a script so that the texts stay readable.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or ["RESP replies on client connections"], hook_needed=None)))

NOTEST = "No existing test runs a server, a command handler or the AOF at all; "

p("C01", "An acknowledged write survives a crash",
  "With appendonly enabled, once any byte of the reply to a write command has left the server, a crash of the process at any later instant followed by a restart on the files left behind yields a keyspace that contains that write: the recovered keyspace equals the effect of some prefix of the commands executed, and that prefix includes every acknowledged one. With appendfsync=always this also holds for a power loss that drops everything not yet fsynced. This holds however many commands are pipelined or in flight and whatever the interleaving of reads, writes and event-loop iterations.",
  ["crash_points", "schedules", "histories"],
  "every interleaving of client sends with event-loop iterations, every position in the resulting log of file and socket effects as crash point",
  NOTEST + "no test crashes or restarts anything; the ordering of log flush and reply only shows for particular readiness patterns and crash points.",
  ["server/aof.go", "server/server.go", "server/client.go", "ae/ae.go"],
  [("flush of the AOF buffer before the loop sleeps", "server/server.go beforeSleepProc, server/aof.go flushAppendOnlyFile"),
   ("replies are only written by a writable-event handler", "server/client.go addReply, server/server.go sendReplayToClient"),
   ("order in which ready events are dispatched", "ae/ae.go wait/processEvents")],
  ["socket write and file write/fsync order", "keyspace after restart"])

p("C02", "Restarting on the append-only file restores the same keyspace",
  "With appendonly enabled, stopping the server after any sequence of commands (from any number of clients, in any databases, with arbitrary binary keys and values of any size, including random ones such as SPOP) and starting it again on the same file yields exactly the same keyspace in every database: same keys, types, values, list order, scores, and expiry times up to one second. This holds again after further commands and further restarts.",
  ["histories", "inputs"],
  "all command sequences up to a depth over an alphabet covering every write command, with restarts interposed at every position and again afterwards",
  NOTEST + "replay equivalence quantifies over histories and over restarts in the middle of histories.",
  ["server/aof.go", "server/command.go", "server/commandset.go", "server/commandkey.go", "server/commandstring.go"],
  [("every command that changed data is logged with the database it ran in", "server/command.go call, server/aof.go feedAppendOnlyFile"),
   ("replay of the log at start", "server/aof.go loadAppendOnlyFile")],
  ["keyspace read back through commands after restart"])

p("C03", "A torn append-only file tail costs only the incomplete command",
  "If the append-only file ends in the middle of a command, at any byte, the server still starts, serves exactly the keyspace produced by the complete commands in the file, and neither a panic nor a partial or altered command results. Commands accepted after such a recovery survive the next restart. If reading or repairing the file fails at a start, the server serves either all of these commands or does not start, and the file still yields them at the next start.",
  ["crash_points", "inputs"],
  "every byte-truncation of the log of every command history up to a depth, followed by further writes and a second restart",
  NOTEST + "every byte offset of every history is a different crash point.",
  ["server/aof.go"],
  [("log parser", "server/aof.go loadAppendOnlyFile")],
  ["server start", "keyspace after restart"])

p("C04", "AOF rewrite preserves the keyspace under concurrent writes",
  "When an AOF rewrite (BGREWRITEAOF or automatic) completes, the new file alone reproduces the live keyspace of every database, including list order, scores, expiry times up to one second, and every command executed before, during or after the rewrite exactly once and in its own database. This holds for every interleaving of the background rewriting with the commands being served.",
  ["schedules", "histories"],
  "all interleavings (bounded preemptions) of the rewrite goroutine's steps with client commands and cron ticks, over histories in several databases and collections larger than one log command",
  NOTEST + "the rewrite goroutine shares memory with the event loop; only particular interleavings duplicate, lose or misplace a write.",
  ["server/aof.go", "database/database.go", "datastruct/dict.go", "datastruct/quicklist.go", "datastruct/set.go", "datastruct/zset.go"],
  [("snapshot of the databases taken when the rewrite starts", "database/database.go DeepCopy"),
   ("commands executed meanwhile are buffered and appended", "server/aof.go aofRewriteBuf, aofRewriteDoneCallback"),
   ("SELECT emitted when the database changes", "server/aof.go feedAppendOnlyFile")],
  ["keyspace after restart on the rewritten file"])

p("C05", "An AOF rewrite is crash safe",
  "A crash at any point during an AOF rewrite, during the replacement of the old file by the new one, or right after it, followed by a restart, recovers a keyspace that includes every acknowledged write. At no instant does the configured append-only file lack acknowledged data, and with appendfsync=always this extends to power loss. The same holds if a file operation of the rewrite fails instead.",
  ["crash_points", "schedules"],
  "every position of the file-effect log (creations, writes, fsyncs, renames, removals) of executions in which a rewrite overlaps client writes, with torn last writes",
  NOTEST + "the window between installing the new file and appending buffered writes is a handful of system calls.",
  ["server/aof.go"],
  [("installation of the rewritten file", "server/aof.go aofRewriteDoneCallback"),
   ("temporary file produced by the background goroutine", "server/aof.go rewriteAppendOnlyFile")],
  ["file contents at every prefix of the effect log", "keyspace after restart"])

p("C06", "The configured fsync policy is honoured",
  "With appendfsync=always, the log records of a write are fsynced before its reply is sent. With appendfsync=everysec, every logged byte is fsynced within about two seconds of being written as long as the server keeps running, including when no further write ever arrives and while rewrites replace the file; a background fsync never brings the server down.",
  ["schedules", "histories"],
  "all sequences of writes, idle periods, and rewrites over a discrete time grid, all interleavings of the fsync goroutine",
  NOTEST + "timing of fsync relative to writes and idleness is invisible to tests.",
  ["server/aof.go", "server/server.go"],
  [("fsync decision", "server/aof.go aofFileSync, flushAppendOnlyFile")],
  ["fsync calls on the log file in the effect log"])

p("C07", "String commands behave like a map from keys to byte strings",
  "For every sequence of SET, GET and SETEX, of expiry and of accesses with commands of other types, GET returns exactly the bytes last stored under the key by SET or SETEX and null if there are none, SET clears any earlier expiry and replaces a value of any type, and SETEX stores value and expiry together. Keys and values are binary safe and of any length.",
  ["histories", "inputs"],
  "all sequences up to a depth over colliding keys and values, all value lengths around buffer boundaries",
  NOTEST + "correctness is over all command histories and byte contents.",
  ["server/commandstring.go", "datastruct/dict.go", "server/resp.go"],
  [("string handlers", "server/commandstring.go"), ("keyspace dictionary", "datastruct/dict.go")])

p("C08", "List commands behave like a double-ended sequence",
  "For every sequence of LPUSH, RPUSH, LPOP, RPOP, LLEN, LINDEX and LRANGE, the list equals the mathematical sequence those commands describe, at every length (including lists of many thousands of elements), and every reply reports that sequence exactly. Indexes count from 0, or from the end when negative, and range bounds outside the list are clamped.",
  ["histories", "inputs"],
  "all op sequences up to a depth from empty lists and from lists around every page boundary; all (start, stop) and index arguments around the bounds, including extreme integers",
  "Quicklist tests only append, insert in the front half, and remove from the front; no test pops from the back of a long list or runs the commands.",
  ["server/commandlist.go", "datastruct/quicklist.go"],
  [("list handlers", "server/commandlist.go"), ("paged list", "datastruct/quicklist.go")])

p("C09", "Hash commands behave like a per-key field map",
  "For every sequence of HSET, HGET, HDEL, HEXISTS, HKEYS and HLEN, each hash equals the map those commands describe: HSET reports the number of new fields, HDEL the number of removed ones, HKEYS lists each field exactly once, and HLEN is its size. This holds for any number of fields, in particular while the hash grows.",
  ["histories"],
  "all op sequences up to a depth from hashes of every size around growth thresholds",
  NOTEST + "growth is incremental, so the outcome depends on the whole history.",
  ["server/commandhash.go", "datastruct/dict.go"],
  [("hash handlers", "server/commandhash.go"), ("incremental rehash", "datastruct/dict.go")])

p("C10", "Set commands behave like mathematical sets",
  "For every sequence of SADD, SREM, SPOP, SCARD, SISMEMBER and SMEMBERS, each set equals the set of members those commands describe, and SPOP removes and returns a current member. SUNION, SINTER and SDIFF return exactly the union, intersection and (left-to-right) difference of their operands, a missing key counting as the empty set, in any operand position and with repeated operands, without changing any operand.",
  ["histories", "inputs"],
  "all op sequences up to a depth over two or three keys, every outcome of the random choice, all operand tuples",
  "Set tests check union/intersection/difference of two large sets once each; the commands, missing operands and random pops are untested.",
  ["server/commandset.go", "datastruct/set.go"],
  [("set handlers", "server/commandset.go"), ("set algebra", "datastruct/set.go")])

p("C11", "Sorted-set commands keep members unique and ordered by score",
  "For every sequence of ZADD, ZREM, ZREMRANGEBYRANK, ZREMRANGEBYSCORE, ZCARD, ZCOUNT, ZSCORE, ZRANGE and ZRANGEBYSCORE, the sorted set equals the map from member to latest score that those commands describe, listed by (score, member), each member exactly once, and every count, rank range (negative ranks counting from the end) and inclusive score range is exact. This holds whatever heights the internal randomisation picks.",
  ["histories", "inputs", "schedules"],
  "all op sequences up to a depth over few members and scores (ties, updates, infinities), all assignments of random heights up to a bound, all rank and score bounds around the edges",
  "Zset tests use distinct ascending scores, never change a score, and remove only prefixes.",
  ["server/commandzset.go", "datastruct/zset.go", "datastruct/skiplist.go"],
  [("member map and ordered list kept in step", "datastruct/zset.go"), ("spans and heights", "datastruct/skiplist.go")])

p("C12", "A command that answers with an error changes nothing",
  "Any command that replies with an error (unknown name, wrong number of arguments, wrong type, malformed number or option) leaves every database, every expiry, the connection's selected database and the append-only file unchanged, creates no key, and leaves the connection usable. Every command of the command table applied to a key of another type replies with an error (SET and SETEX, which overwrite, and type-agnostic key commands excepted).",
  ["inputs", "histories"],
  "every command of the table x wrong arities x wrong types x malformed arguments, from every kind of prior state",
  NOTEST + "error paths are combinatorial.",
  ["server/command.go", "server/commandkey.go", "server/commandlist.go", "server/commandhash.go", "server/commandset.go", "server/commandzset.go"],
  [("arity check and dispatch", "server/command.go processCommand"), ("type checks", "getXIfExist helpers in server/command*.go"), ("dirty counter decides logging", "server/command.go call")],
  ["keyspace before and after", "append-only file bytes"])

p("C13", "Databases are isolated and selection is per connection",
  "Each numbered database is an independent keyspace: no command affects or observes keys or expiries of a database other than the one its connection has selected. SELECT accepts exactly the indexes 0..databases-1, affects only its own connection, and a new connection starts in database 0; any other index is refused without harm.",
  ["histories", "schedules"],
  "all interleavings of two connections' command sequences with SELECT over several databases, all index arguments around the bounds",
  NOTEST + "needs histories over several connections.",
  ["server/commandconnection.go", "server/client.go", "database/database.go"],
  [("per-client database pointer", "server/client.go"), ("index check", "server/commandconnection.go selectCommand")])

p("C14", "The keyspace lists exactly the live keys",
  "KEYS * returns every live key of the selected database exactly once and nothing else, KEYS with any other pattern returns exactly the live keys in which it, read as a Go regular expression, matches (an invalid one is an error or matches nothing), and RANDOMGET returns a live key, or null exactly when there is none. A collection whose last element is removed no longer exists as a key and carries no expiry over to a later key of the same name.",
  ["histories"],
  "all op sequences up to a depth over all types with expiry, keyspace sizes across growth thresholds, every random choice",
  NOTEST + "iteration during incremental growth and with expired entries depends on history.",
  ["server/commandkey.go", "server/commandstring.go", "datastruct/dict.go"],
  [("iteration", "datastruct/dict.go DictIterator"), ("random entry", "datastruct/dict.go GetRandomKey")])

p("C15", "A key is visible until its expiry instant and never after",
  "A key given an expiry by EXPIRE, EXPIREAT or SETEX is served normally until that instant and is absent for every command afterwards (reads, KEYS, TTL = -2), whether or not background collection has run. TTL reports the remaining whole seconds, -1 for a key without expiry and -2 for a missing key; a later SET, or a later expiry command, replaces the earlier expiry.",
  ["histories", "schedules"],
  "all command sequences up to a depth with clock advances placed before, after and between background collection and command execution",
  NOTEST + "depends on where time passes relative to commands and background collection.",
  ["server/command.go", "server/commandkey.go", "server/commandstring.go"],
  [("lazy expiry", "server/command.go expireIfNeeded"), ("TTL arithmetic", "server/commandkey.go")])

p("C16", "Writing to an expired key starts afresh",
  "A write command addressed to a key that has expired behaves exactly as if the key did not exist: no element of the dead value survives, the result has no expiry, and it is not lost to the old expiry later. Setting an expiry on a key that does not exist has no effect on a key created later under that name.",
  ["histories", "schedules"],
  "every write command x every type x every placement of expiry before it, with and without background collection in between, followed by further time",
  NOTEST + "needs time to pass between two commands with background collection in a particular phase.",
  ["server/commandlist.go", "server/commandhash.go", "server/commandset.go", "server/commandzset.go", "server/commandkey.go"],
  [("lookup-or-create helpers", "getQuickList/getHash/getSet/getZset")])

p("C17", "Background expiry removes only expired keys, and removes them all",
  "Periodic background collection never removes or alters a key whose expiry has not passed or that has none, in any database, and if the server keeps running every expired key is eventually removed without being accessed. The removal is also reflected after a restart from the append-only file.",
  ["histories", "schedules"],
  "all sequences of expiring and non-expiring keys and clock advances over several databases, all random sampling outcomes within a bound",
  NOTEST + "sampling is random and timing dependent.",
  ["server/server.go", "datastruct/dict.go"],
  [("databasesCron", "server/server.go")])

p("C18", "Requests parse identically however the byte stream is split",
  "For every sequence of valid RESP array requests with arguments of any bytes and lengths (including empty arguments, arguments containing CRLF, and arguments longer than any internal buffer), the commands executed and the replies are the same for every way of splitting the byte stream into reads. More generally, any byte stream with lines below the 64 KB line limit, whatever request forms or malformed requests it holds, executes the same commands and leaves the connection open or closed alike however it is split.",
  ["inputs", "schedules"],
  "all split points (one, two, and every-byte splits) of all requests of a grammar-bounded set, all argument lengths around buffer boundaries",
  "Parser tests feed one complete request at once, never a partial one.",
  ["server/resp.go", "server/server.go", "server/client.go"],
  [("resumable parser", "server/resp.go"), ("read buffer growth", "server/server.go readQueryFromClient")])

p("C19", "Pipelined requests are all executed, in order, one reply each",
  "Any number of requests sent on one connection without waiting for replies, in any segmentation, are executed completely and in order, and the replies come back complete, uncorrupted and in the same order, exactly one per request.",
  ["inputs", "schedules"],
  "all sequences of requests (including erroneous, empty and oversized-reply ones) up to a depth, all placements of segment boundaries and of event-loop iterations between them",
  NOTEST + "no test sends two requests in one read.",
  ["server/resp.go", "server/command.go", "server/client.go"],
  [("input loop", "server/resp.go processInputBuffer"), ("per-command client reset", "server/client.go reset")])

p("C20", "No client input can crash or wedge the server",
  "Whatever bytes a client sends, and whatever arguments it gives to any command, the server process neither panics nor exits nor hangs: the offending request gets an error reply or its own connection is closed, and all other connections and all data are unaffected.",
  ["inputs"],
  "all byte strings up to a length over the protocol alphabet, all mutations of valid requests, every command with extreme arguments (negative, huge, NaN, empty)",
  NOTEST + "only well-formed input is tested.",
  ["server/resp.go", "server/command.go", "server/commandconnection.go", "server/commandlist.go", "server/commandzset.go", "datastruct/quicklist.go", "datastruct/skiplist.go"],
  [("request parser", "server/resp.go"), ("argument validation in every handler", "server/command*.go")])

p("C21", "Replies reach a slow reader complete and in order",
  "However little of a reply the socket accepts at a time (short writes, would-block, interrupted), the bytes the client receives are exactly the concatenation of its replies in order, with nothing lost, repeated or interleaved, and once everything is sent the server is idle again rather than spinning.",
  ["fault_sequences", "schedules"],
  "every sequence of accepted-byte counts and would-block answers (bounded deviations) for replies of one or many fragments, with further requests arriving in between",
  NOTEST + "the kernel accepts small writes whole in tests.",
  ["server/server.go", "server/client.go", "ae/ae.go"],
  [("partial write bookkeeping", "server/server.go sendReplayToClient"), ("writable registration", "server/client.go addReply")])

p("C22", "Connections are isolated through connect, disconnect and fd reuse",
  "A client that disconnects, resets, or is closed for a protocol error, at any moment and with any unsent replies or partial request, affects no other connection: nobody receives bytes meant for another connection, no handler acts on a connection that has been closed even if its descriptor is reused at once, no descriptor is leaked or closed twice, and new connections are served.",
  ["schedules", "fault_sequences"],
  "all interleavings of connect, send, close, reset and event-loop iterations of up to three clients, all orders of readiness delivery",
  NOTEST + "one client at a time is tested, and never a disconnect.",
  ["server/server.go", "server/client.go", "ae/ae.go"],
  [("client teardown", "server/client.go free"), ("dispatch of a batch of ready events", "ae/ae.go wait/processEvents")],
  ["bytes received per connection", "descriptor table"])

p("C23", "A password protects every command but AUTH",
  "When a password is configured, a connection that has not yet authenticated can neither read nor change anything: every command other than AUTH is answered with an error and has no effect. AUTH succeeds exactly for the configured password, authenticates only its own connection, and a later failed AUTH withdraws it; with no password configured all commands work without AUTH.",
  ["histories", "inputs"],
  "all command sequences up to a depth of two connections over the whole command table, AUTH with correct, wrong, empty and prefix passwords, any letter case of command names",
  NOTEST + "access control must hold for every command and history.",
  ["server/command.go", "server/commandconnection.go", "server/client.go"],
  [("authentication gate", "server/command.go processCommand"), ("AUTH", "server/commandconnection.go authCommand")])

p("C24", "The dictionary is a map, at every stage of incremental rehashing",
  "For every sequence of set, get, find, delete, size, deep copy, random pick and iteration, under any hash function, the dictionary behaves as a plain map: set reports whether the key was new, delete removes exactly its key, size is the number of keys, a deep copy is equal to and independent of the original, and a random pick is a present entry, any of which can come up. An iteration with no insertion meanwhile visits every entry present throughout exactly once, lookups and deletions of already visited keys included, and iteration leaves the dictionary fully functional.",
  ["histories", "inputs"],
  "all op sequences up to a depth from every fill level around growth thresholds and every rehash position, with hash functions from all-colliding to perfect",
  "Dict tests insert and read back distinct keys and delete a single key; no deletion, iteration or copying during a rehash.",
  ["datastruct/dict.go", "database/database.go"],
  [("two-table incremental rehash", "datastruct/dict.go rehash/Find/Delete/keyIndex"), ("iterator counting pauses rehash", "datastruct/dict.go DictIterator")],
  ["exported dictionary API"])

p("C25", "The paged list is a sequence, across all page boundaries",
  "For every sequence of push, pop, insert, remove, get, find, range and iteration (forwards and backwards), at every length and position, the paged list behaves as a plain sequence: each operation affects exactly the addressed position, out-of-range positions are refused without effect, and length is exact.",
  ["histories", "inputs"],
  "all op sequences up to a depth with positions at and around page boundaries, from lists of lengths around multiples of the page size and with irregular page fill",
  "Quicklist tests never address the back half of a multi-page list except through iteration.",
  ["datastruct/quicklist.go"],
  [("page location", "datastruct/quicklist.go get"), ("page split", "datastruct/quicklist.go Insert")],
  ["exported list API"])

p("C26", "The skip list stays ordered with exact ranks for all random heights",
  "For every sequence of insert, delete, delete-by-score, delete-by-rank and of sorted-set add, update and remove, and for every outcome of the random height choice, forward and backward traversal give exactly the elements in (score, member) order, rank queries and element-at-rank are exact inverses, range, count and first/last-in-range queries are exact, and deleting something absent changes nothing and reports nothing.",
  ["histories", "schedules"],
  "all op sequences up to a depth with all height assignments up to a bound, all rank and score arguments",
  "Skiplist tests insert ascending distinct scores with one random height sequence and delete only from the front.",
  ["datastruct/skiplist.go", "datastruct/zset.go"],
  [("span maintenance", "datastruct/skiplist.go Insert/deleteNode"), ("rank search", "datastruct/skiplist.go GetRank/GetElementByRank/DeleteRangeByRank")],
  ["exported skip-list and sorted-set API"])

p("C27", "Timers fire on time, as often as asked, until removed",
  "A repeating timer fires once per elapsed interval check and never before its interval has passed since it was added or last fired, a one-shot timer fires exactly once, and a removed timer never fires again, for any number of timers with any intervals and with handlers that add or remove timers (themselves included). File events keep being served whatever timers do, and waiting oversleeps the nearest due timer by at most 10 ms.",
  ["schedules", "histories"],
  "all sequences of timer additions, removals (also from inside handlers), clock advances and file readiness up to a depth",
  "One test with two timers at one interval in real time.",
  ["ae/ae.go"],
  [("timer list and due check", "ae/ae.go wait/processEvents"), ("sleep computation", "ae/ae.go getNearestTime")],
  ["handler invocations with virtual time", "timeouts passed to the poller"])

p("C28", "File-event handlers run exactly for registered, ready descriptors",
  "In each iteration a handler is run for exactly those (descriptor, direction) pairs that are registered and ready and have not been removed by an earlier handler of the same iteration, with the data given at registration; adding a pair twice or removing an absent one is refused without effect, and the two directions of one descriptor are independent. The before-sleep callback runs before every wait.",
  ["schedules", "histories"],
  "all sequences of add, remove (also from inside handlers, also of other descriptors), readiness changes and descriptor reuse up to a depth",
  "One test with one client and a fixed order.",
  ["ae/ae.go"],
  [("registration map and poller mask kept in step", "ae/ae.go AddFileEvent/RemoveFileEvent/getEpollEventMask"), ("dispatch", "ae/ae.go processEvents")],
  ["handler invocations", "poller interest set"])

p("C29", "The server listens on the configured address and port only",
  "The server accepts connections on exactly the configured bind address and port: a specific address is not widened to other local addresses, 0.0.0.0 covers all, and an invalid or unavailable address is reported as an error without leaking a descriptor.",
  ["configurations", "fault_sequences"],
  "all (bind address, connect address) pairs over a set of loopback addresses, failure injected at every socket call",
  "The only test binds and connects to 127.0.0.1.",
  ["socket/socket.go", "server/tcp.go"],
  [("address conversion", "socket/socket.go Bind/Connect"), ("setup and cleanup", "server/tcp.go CreateTCPServer")],
  ["socket calls", "loopback connections"])

p("C30", "Concurrent clients observe one serial order of atomic commands",
  "For any number of connections with requests in flight at once, every command takes effect atomically at one point between its arrival and its reply, in an order consistent with each connection's own order; all replies are explained by that single order, and nothing of one connection's partially received request or replies shows up in another's.",
  ["schedules"],
  "all interleavings of up to three clients' (fragmented) requests with event-loop iterations and readiness orders",
  NOTEST + "needs concurrent clients.",
  ["server/server.go", "server/client.go", "server/resp.go", "ae/ae.go"],
  [("single-threaded event loop with per-client buffers", "server/server.go, server/client.go")])

p("C31", "Automatic rewrite starts exactly when the file outgrew its base",
  "With appendonly enabled and a positive growth percentage, an automatic rewrite starts if and only if no rewrite is running, the file is larger than the configured minimum size, and it has grown by at least the configured percentage over its size after the last rewrite (over one byte if there was none since start). At most one rewrite runs at a time, afterwards a new one can run, and with percentage 0 or appendonly disabled none is started automatically.",
  ["histories", "configurations", "schedules"],
  "all sequences of writes, ticks, rewrite completions and manual rewrites up to a depth over several percentages and minimum sizes",
  NOTEST + "the cron logic is untested.",
  ["server/server.go", "server/aof.go", "server/commandserver.go"],
  [("growth computation", "server/server.go serverCron"), ("one background task at a time", "server/aof.go rewriteAppendOnlyFileBackground")],
  ["file effects: creation of the rewritten file"])

p("C32", "The configuration file decides the running server's behaviour",
  "The server started with a configuration file behaves as configured: the given port, number of databases (16 by default), password, append-only on or off and its file name, fsync policy, and rewrite thresholds with size suffixes; with appendonly off no append-only file is created or written, not even on BGREWRITEAOF, and the server keeps running.",
  ["configurations"],
  "all combinations of a small set of values per setting, each run as a real server process",
  NOTEST + "configuration loading and the main program have no tests.",
  ["config/config.go", "cmd/root.go", "server/server.go", "server/commandserver.go"],
  [("configuration loading", "config/config.go LoadConfig"), ("server construction", "server/server.go NewServer")],
  ["behaviour of the running process"])

p("C33", "Stopping the server is orderly and loses nothing acknowledged",
  "Stopping the server at any moment, including while requests, fsyncs or a rewrite are in progress, ends the event loop, releases the listening socket, and leaves files from which a restart recovers every acknowledged write; the stop itself neither panics nor hangs.",
  ["schedules", "crash_points"],
  "all interleavings (bounded preemptions) of the stop sequence with the event loop, the fsync goroutine and the rewrite goroutine",
  NOTEST + "Stop runs on another goroutine than the loop.",
  ["server/server.go", "cmd/root.go", "ae/ae.go", "server/aof.go"],
  [("Stop", "server/server.go Stop"), ("loop termination", "ae/ae.go Main")],
  ["thread outcomes", "keyspace after restart"])

p("C34", "Reading changes nothing",
  "A command that only reads (PING, GET, TTL, KEYS, RANDOMGET, HGET, HEXISTS, HKEYS, HLEN, LLEN, LINDEX, LRANGE, SCARD, SISMEMBER, SMEMBERS, SDIFF, SINTER, SUNION, ZRANGE, ZRANGEBYSCORE, ZCARD, ZCOUNT, ZSCORE, and SELECT and AUTH) leaves every key, value and expiry of every database as it is, creates no key, and adds nothing to the append-only file, neither directly nor through a rewrite; keys found expired may be removed, and their removal logged. This holds for existing, missing, expired and wrongly typed keys, however often the command is repeated.",
  ["histories", "configurations"],
  "all sequences of writes and time up to a depth, each followed by every read with every kind of key, also during rewrites",
  NOTEST + "the log and the state after reads are untested.",
  ["server/command*.go", "datastruct/*.go"],
  [("only commands that raise dirty are logged", "server/command.go call"), ("lookups that do not create", "server/command*.go get*IfExist"), ("set operations build new sets", "datastruct/set.go")],
  ["append-only file content", "keyspace after restart"])

p("C35", "Descriptors, goroutines and files do not pile up",
  "However long the server runs and whatever happens to it (clients that come and go in any manner, failing socket calls, rewrites, fsyncs, expiries, errors), it holds no more open descriptors, running goroutines and files than the clients connected and the work in progress need: repeating the same usage again and again does not increase them.",
  ["histories", "fault_sequences"],
  "all sequences of usage patterns up to a length, repeated, under every fsync policy",
  NOTEST + "no test counts resources.",
  ["server/server.go", "server/client.go", "server/aof.go", "socket/socket.go", "ae/ae.go"],
  [("connections closed and forgotten", "server/client.go free"), ("replaced append-only files closed", "server/aof.go aofRewriteDoneCallback"), ("temporary file renamed away", "server/aof.go rewriteAppendOnlyFile")],
  ["open descriptors by kind", "live goroutines", "directory entries"])

p("C36", "Background work delays no client",
  "While an AOF rewrite is being written or an everysec fsync is under way, however long the disk takes, every client keeps being served: requests are answered as if nothing were going on, new connections are accepted, writes are logged, keys expire and are removed, and BGREWRITEAOF is answered at once. The thread that serves clients does not write the rewritten data or run the everysec fsync itself. When the disk recovers, the work completes and takes effect.",
  ["schedules", "fault_sequences"],
  "all points at which the disk can stall in the background, with all sequences of commands and time up to a depth while it does",
  NOTEST + "background work is never slow in the tests.",
  ["server/aof.go", "server/server.go"],
  [("rewrite goroutine on a private copy", "server/aof.go rewriteAppendOnlyFileBackground"), ("fsync goroutine", "server/aof.go aofFileSync")],
  ["replies while background threads are stalled", "file effects per thread"])

p("C37", "Memory held follows the data",
  "What has been deleted, overwritten, expired or answered, and clients that have gone, leave nothing behind: repeating the same usage again and again (keys and elements of every type created, changed and removed in any manner, expiries, requests of any size that arrive in parts, slow readers, connections that come and go, errors, fsyncs and rewrites) does not make the data structures of the server (keyspaces, expiries, clients, buffers, events) grow.",
  ["histories"],
  "all combinations of uses up to a size, each repeated many times, with and without an append-only file",
  NOTEST + "no test looks at the memory retained.",
  ["server/client.go", "server/server.go", "server/aof.go", "datastruct/*.go", "ae/ae.go"],
  [("query buffer dropped or cut", "server/client.go reset"), ("replies removed once sent", "server/server.go sendReplayToClient"), ("expiries removed with their keys", "server/commandkey.go"), ("tables that grow with the live entries only", "datastruct/dict.go")],
  ["bytes reachable from the server object after each round"])

p("C38", "Busy connections do not starve the rest",
  "However many connections keep the server busy without end (endless requests one by one or pipelined, replies never or hardly ever read, requests that trickle in or never end, connections that come and go or send garbage), everything else goes on: a complete request of any other connection is answered, new connections are accepted, disconnections are noticed, expired keys are removed, rewrites are completed and fsyncs are run, each within a number of rounds of the event loop that is bounded in the number of connections; no connection keeps the event loop to itself.",
  ["schedules", "histories"],
  "all combinations of kinds of busy connections, numbers of them and things to be done meanwhile",
  NOTEST + "the tests have one well-behaved client at a time.",
  ["ae/ae.go", "server/server.go", "server/client.go", "server/resp.go"],
  [("one read per readable event", "server/server.go readQueryFromClient"), ("every event reported is handled", "ae/ae.go processEvents"), ("time events handled in every round", "ae/ae.go wait")],
  ["rounds until replies, acceptance, removals, fsync and replacement of the file"])

p("C39", "The cost of a command does not follow the size of the data",
  "Setting, adding, reading, testing, removing or counting a single element, popping at either end, reading a short range at either end or by rank or score, setting, reading or expiring a key, picking one at random, and the periodic work of the server take a number of steps that does not grow in proportion to the number of elements of the value, of keys, of expiring keys, of expired keys or of connected clients (logarithmic growth of sorted sets and small multiples for the pages of a list excepted), with or without an append-only file, and whatever commands have read the data before (listing, failing, rewriting). No single addition is exceptionally expensive because much is there already; and commands on what is left after most of the data was removed or has expired do not remain as expensive as it was.",
  ["histories"],
  "all types of data, uses of it before and commands on it, at two sizes each",
  NOTEST + "no test measures work done, and the benchmarks look at single structures of one size.",
  ["datastruct/*.go", "server/command*.go", "server/server.go", "ae/ae.go"],
  [("incremental rehashing that ends", "datastruct/dict.go"), ("iterators released", "datastruct/set.go, server/commandkey.go"), ("skiplist levels and spans", "datastruct/skiplist.go"), ("list ends reached from the nearer side", "datastruct/quicklist.go get"), ("sampling of expiring keys", "server/server.go databasesCron")],
  ["functions and loop bodies entered per command"])

p("C40", "A damaged append-only file is refused and left as it is",
  "If the append-only file holds something that is neither a sequence of complete commands nor such a sequence followed by the beginning of another one (bytes replaced, missing, zeroed or inserted anywhere in its framing, garbage between commands), the server does not start, and leaves the file byte for byte as it is, so that nothing is lost by trying: it neither skips the damage, nor serves only what precedes it, nor cuts the file there. Whenever the server refuses to start, the file is unchanged; a well-formed file is never refused.",
  ["crash_points", "inputs"],
  "all short histories, all positions in the file, and all kinds of damage there",
  NOTEST + "no test reads a damaged file.",
  ["server/aof.go", "server/server.go"],
  [("only the end of the file is taken for a torn command", "server/aof.go loadAppendOnlyFile"), ("types, lengths and line ends are verified", "server/aof.go readAppendOnlyCommand"), ("the file is cut only after everything was read", "server/aof.go loadAppendOnlyFile")],
  ["whether the server starts, the file afterwards, the keyspace served"])

p("C41", "Editing the configuration file does not disturb the running server",
  "Whatever happens to the configuration file while the server runs (edited in place or replaced, with other values, values out of range or of a wrong type, unknown keys, emptied, malformed, half written, removed and created again), the server keeps running, keeps its connections and its listening socket, and answers every command as before, with the data, the password, the databases, the port and the append-only file it was started with; nothing is lost, and the next start finds all data and uses the new content.",
  ["configurations", "histories"],
  "all sequences of edits up to a length, over a set of contents and ways of writing them",
  NOTEST + "no test changes a configuration file.",
  ["config/config.go", "server/server.go", "cmd/root.go"],
  [("a reload that fails is reported and ignored", "config/config.go LoadConfig OnConfigChange"), ("settings are copied when the server is made", "server/server.go NewServer")],
  ["whether the process runs, replies on old and new connections, files in its directory"])

p("C42", "Setting the system clock does not stop the server's work",
  "When the system clock is set forwards or backwards by any amount while the server runs, everything that is due by the passing of time goes on as before: a write is made durable within its second under everysec, a rewrite completes, periodic work runs every 100 ms, and keys are removed soon after the system clock has passed their expiry; commands are answered according to the system clock as it stands, nothing is lost, and the server neither stalls nor spins.",
  ["schedules", "histories"],
  "all sequences of clock steps, writes, expiring keys and waiting up to a length, for each kind of work that is due",
  NOTEST + "no test sets a clock.",
  ["ae/ae.go", "server/aof.go", "server/server.go"],
  [("timers run on a clock that cannot be set", "ae/ae.go now"), ("the time since the last fsync is a difference of monotonic readings", "server/aof.go aofFileSync")],
  ["replies, fsyncs, removals in the log, replacement of the file, with the system clock and the passing of time kept apart"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
