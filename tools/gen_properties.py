#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

CONN, MSG, PROTO, API = "libcomfo/conn.go", "libcomfo/message.go", "libcomfo/proto.go", "libcomfo/api.go"
RESP, REQ = "libcomfo/response_types.go", "libcomfo/request_types.go"
CACHE, SRV, PB, HLP, TIM = ["comfoserver/%s.go" % n for n in ("caches", "server", "protobuf", "helpers", "timers")]
PYC, PYT = "python/comfo/client.py", "python/comfo/types.py"

p("C01", "One exchange at a time on the link to the unit",
  "At most one request/reply exchange is in progress on the link to the unit at any moment: from the first byte of a request to the last byte of its closing acknowledgement (or until it fails), no other library call writes to the connection or reads from it; a library call here is an exported function of libcomfo that is given the connection as an io.ReadWriter (the framing primitives ReadPacket, WritePacket, WriteAck and the scan helpers are parts of one). The right to use the link is taken before the first byte and is given back on every way out of the call, so that later calls can proceed.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of library calls on any number of goroutines; every success and error path of an exchange",
  "The tests drive one call at a time against a mock that is documented as not thread-safe; no test has two callers.",
  [CONN, MSG, API], [("package-wide mutex around the exchange", "libcomfo.QueryPacket"), ("all high-level calls go through it", "libcomfo.setQuery/getQuery")],
  ["bytes written to and read from the connection"], [{"name": "link mutex", "meaning": "holder owns the connection", "where": CONN}])
p("C02", "Nothing started by an exchange outlives it",
  "When a library call returns, on any path including a time-out, nothing it started is still reading from the connection, and nothing it started can stay blocked for ever trying to hand over a result nobody waits for.",
  ["schedules", "fault_sequences"], "every way an exchange can end, whatever the unit sends or fails to send, and when",
  "A leaked reader or goroutine has no effect on the call a test observes; only later calls or memory growth show it, and no test makes a second call after a time-out.",
  [CONN], [("reader goroutine and its result channel", "libcomfo.ScanTimeout")], ["goroutines alive after a call returns", "bytes missing from the next reply"])
p("C03", "Waiting for the unit is bounded by one deadline per exchange",
  "After sending a request, a library call never waits for the unit without a deadline: all waits of one exchange share a single time-out of at most one second that is started once, after the request was written, and never extended. When it expires first, the call returns a non-nil error.",
  ["schedules", "fault_sequences"], "every pattern of silence, delay and partial data from the unit, at every point of the exchange",
  "Tests pass their own millisecond timers to the inner functions; nothing pins that every wait of a real exchange is covered by the one timer of that exchange.",
  [CONN], [("query-scoped timer passed to every scan", "libcomfo.QueryPacket, ReadPacket, ScanTimeout, WaitTimeout")], ["return time and error of a call"])
p("C04", "Success is reported only after the unit's acknowledgement and reply",
  "A library call that sends a set command returns a nil error only if the request was written without error and the unit's acknowledgement sequence arrived with nothing before it; a call that expects data additionally needs the start sequence with nothing before it, a complete frame closed by the end sequence, and a reply code equal to the request code plus one, in that order. The closing acknowledgement is written without error before success is reported, and end of stream, a read error or a control sequence of the wrong kind is never taken for an acknowledgement.",
  ["inputs", "fault_sequences"], "every byte stream and every read/write failure at any point of an exchange",
  "Tests feed a dozen fixed streams, all with control sequences in the right order; end of stream in place of an acknowledgement is not among them.",
  [CONN, PROTO], [("three scans and the checks between them", "libcomfo.ReadPacket"), ("command check and closing ACK", "libcomfo.QueryPacket")], ["returned error", "bytes written to the connection"])
p("C05", "Only frames that pass length and checksum verification are accepted",
  "A received frame is turned into a packet only if it has at least the four fixed bytes, its length byte equals the length of its unescaped payload, and its last byte equals the checksum computed from that command, length byte and the whole unescaped payload. The command and payload handed to the caller are exactly the ones that were verified; otherwise an error and an empty packet is returned.",
  ["inputs"], "every byte sequence taken for a frame",
  "Tests try six malformed frames; corruption patterns that pass a weakened comparison are not enumerable by examples.",
  [PROTO], [("length comparison, checksum comparison", "libcomfo.UnmarshalPacket, verifyChecksum, calculateChecksum")], ["packet and error returned for a frame"])
p("C06", "No byte from the unit and no RPC argument can cause a panic",
  "No sequence of bytes received from the unit, no I/O failure and no argument of a library call or RPC (nil connections and nil result pointers passed by the caller aside) makes the library, an RPC handler or the background worker panic: every index, slice, type assertion, division, dereference and explicit panic is unreachable or safe for all inputs.",
  ["inputs", "fault_sequences"], "every payload, stream, argument value and cached state",
  "Decoders are tested with one or two payload lengths each; the RPC handlers and the background worker have no tests at all.",
  [PROTO, RESP, MSG, API, CONN, SRV, HLP, CACHE], [("length checks before indexing", "each UnmarshalBinary, UnmarshalPacket"), ("range checks before the mode switch", "comfoserver.SetFanProfile")], ["process stays up"])
p("C07", "Each getter decodes the reply to its own request, or returns an error",
  "Every library getter sends its own request code (all codes distinct), decodes the reply with the decoder registered for that code plus one, and the decoder's result is of the type the getter returns. A getter returns decoded data only together with a nil error; with an error it returns the zero value.",
  ["inputs", "fault_sequences", "programs"], "every getter, every reply and every failure",
  "One getter's exchange is tested through the internal query function; the exported getters, where request, table and result type meet, are never called by a test.",
  [API, MSG, RESP, REQ], [("request code constants", REQ), ("reply type table", "libcomfo.ResponseType"), ("type assertions", API)], ["values returned by the getters"])
p("C08", "Each decoded field comes from its own payload bytes",
  "Each reply type accepts exactly one payload length and reports an error for any other without filling in data; of that length every payload is accepted, except a fan reading whose period gives no speed or none that fits its field. In an accepted payload every exported field is determined by exactly the payload byte or bytes the protocol assigns to it, for all byte values. One-byte numeric fields equal their byte, multi-byte whole numbers are big-endian, a flag is set exactly when its byte is 1, and the device name is its bytes as text, at most without the blank space around it.",
  ["inputs"], "every reply type, every payload length, every byte value",
  "One sample payload per type is decoded by the tests, with repeated byte values and flags, so a field read from a neighbouring or additional byte can go unnoticed.",
  [RESP], [("fixed-offset decoders", "UnmarshalBinary of BootInfo, Temps, Bypass, Hours, Fans, FanProfiles, Errors")], ["decoded structures"])
p("C09", "Changing one fan profile leaves the others as the unit has them",
  "Setting the percentage of one fan profile through the library sends exactly one profile command, in which the supply and exhaust percentages of that profile equal the requested value and the other six percentages are the ones the unit reported in the same call. From reading the profiles to sending the command no other library call that writes profiles can send one, so no update is lost.",
  ["schedules", "inputs", "histories"], "every mode, every percentage, every reported profile set, every interleaving of profile-writing calls",
  "No test calls the exported profile setters, let alone two of them concurrently.",
  [API, REQ, RESP], [("read-modify-write mutex", "libcomfo.SetFanProfile"), ("payload encoding", "libcomfo.FanProfiles.MarshalBinary")], ["profile command payload on the wire"])
p("C10", "Only in-range, unaltered values are sent to the unit",
  "A fan speed command carries a value from 0 to 4, a single-profile update a mode from 0 to 3 and a percentage from 0 to 100, a comfort temperature a value from 0 to 107 degrees encoded without wrap-around; every such value is accepted and sent, and anything else is rejected with a non-nil error and nothing is written to the connection. The command code and payload written are those of the requested operation and the values the caller passed; the setter RPCs pass on exactly the values requested of them.",
  ["inputs"], "every argument value of every library setter and setter RPC",
  "Tests try one accepted and one rejected value for the inner encoders only; the exported setters' own checks are not exercised.",
  [API, REQ, MSG], [("range checks", "SetFanProfile, setSpeedT.MarshalBinary, temperature.MarshalBinary")], ["request frame on the wire"])
p("C11", "Protocol constants and decoded results are never shared and mutated",
  "The escape and frame sequences, the offsets, and the table of reply prototypes keep their initial contents for the life of the process. Every decoded reply is a freshly allocated value, so results of different calls never share memory.",
  ["histories", "schedules"], "every sequence and interleaving of calls",
  "Sharing shows only when two results are alive at once or after earlier calls have run; each test decodes one reply.",
  [MSG, RESP, PROTO, CONN], [("New() on each prototype", RESP), ("append to frame constants", "libcomfo.WritePacket")], ["results of earlier calls after later calls"])
p("C12", "State shared between requests and the background worker is race free",
  "Every variable of the service that is read or written by more than one goroutine (RPC handlers, the cache worker, start-up code still running beside them) is accessed only under a lock common to all its accesses, exclusively for writes, or is written only before the goroutines that read it are started.",
  ["schedules"], "every interleaving of any number of RPCs with the background worker",
  "The server package has no tests, and a race detector only sees the accesses that a run happens to overlap.",
  [CACHE, SRV, PB, TIM], [("one lock per cache", CACHE), ("setter locks", SRV)], ["values returned by RPCs"], [{"name": "caches", "meaning": "last known unit state", "where": CACHE}])
p("C13", "Locks are always released and can never deadlock",
  "Every function of the library and the service releases each lock it takes on every way out, including error returns and panics of the program's own code in a request handler, and never acquires a lock it already holds. The order in which locks are acquired while holding others is free of cycles across the whole program, and no lock that an operation needs to make progress is held while waiting on a channel for that operation.",
  ["schedules", "inputs", "fault_sequences"], "every path of every function, every combination of concurrent calls",
  "A leaked lock or an inverted order hangs only a later or concurrent call; no test makes one.",
  [CONN, API, CACHE, SRV, PB], [("Lock / deferred Unlock pairs", "all of them"), ("lock hierarchy: setter lock > cache lock > library locks", SRV)], ["calls that never return"])
p("C14", "Getter RPCs return every field from one consistent cache snapshot",
  "Each getter RPC returns, with a nil error, a message in which every field carries the value of the field of the same name of the matching cache, unchanged by the conversion. All fields of one response are read in one critical section of that cache's lock, so they stem from one and the same reply of the unit.",
  ["schedules", "inputs"], "every cached value, every interleaving with cache refreshes",
  "The server package has no tests; swapped or missing fields and torn snapshots compile and run.",
  [PB, SRV], [("Protobuf() of each cache", PB)], ["RPC responses"])
p("C15", "A failed refresh keeps the last good data, a good one replaces all of it",
  "A cache's data and its update time change only when a query of the unit for that kind of data has returned without error, and then both change together, the data being exactly the value returned and the time not later than the query. The query and the store happen in one hold of the cache's lock, so an older reply never overwrites a newer one. When the query fails, both keep their previous values and the failure is logged.",
  ["fault_sequences", "histories"], "every sequence of successful and failing queries",
  "The server package has no tests, and failures of the unit cannot be provoked without one.",
  [CACHE], [("conditional assignment in Update", CACHE)], ["getter RPC responses after failures"])
p("C16", "Every cache is filled at start-up and refreshed periodically",
  "At start-up each of the six caches is queried unconditionally before the background worker is started, and each of the six is queried again from at least one periodic tick of the worker whenever its data has become stale. The worker serves ticks and flush requests one at a time for ever, on tickers with positive periods that are in place before it starts.",
  ["histories", "schedules"], "the whole life of the process, every order of ticks and flush requests",
  "There are no server tests, and the slow ticks are minutes to an hour apart.",
  [TIM, CACHE], [("UpdateCaches at start", CACHE), ("select over three tickers and the flush channel", "comfoserver.CacheWorker")], ["queries sent to the unit over time"])
p("C17", "Each flush request gets exactly one truthful answer of its own",
  "A flush request for a known cache makes the worker query the unit unconditionally for exactly that cache (for All: for all six) before the answer is given, and every request, known or unknown, receives exactly one answer, its own, even when several clients flush at once. Success is answered only if the cache is known and its query or queries succeeded.",
  ["schedules", "inputs", "fault_sequences"], "every cache selector value, every number of concurrent flushes, every failure of the unit",
  "No server tests exist; crossed or missing answers need concurrent clients or failures.",
  [CACHE, SRV, TIM], [("unbuffered request and reply channels and a single worker", CACHE), ("switch over the selector", "comfoserver.FlushCaches")], ["FlushCache RPC responses"])
p("C18", "Setter RPCs reject invalid arguments before touching the unit",
  "SetFanSpeed accepts only an absolute speed of 1 to 4 or a step that stays within 1 to 4, and never both; SetFanProfile accepts only a profile of 1 to 4 and a percentage of 15 to 100; SetComfortTemp accepts only values that fit one byte. Any other 32-bit argument is answered with an invalid-argument error, and then nothing has been sent to the unit and no cache has changed; accepted arguments reach the unit unaltered, not truncated.",
  ["inputs"], "every 32-bit value of every argument, every cached state",
  "No server tests exist, and truncation needs values above 255.",
  [SRV, HLP], [("range checks", "comfoserver.SetFanProfile, modifySpeed, SetComfortTemp")], ["RPC error code", "commands sent to the unit"])
p("C19", "Setter RPC answers tell what was really done",
  "A setter RPC that returns no error reports Modified true exactly when it sent a command to the unit that succeeded, and false exactly when the cached value already equalled the target and nothing was sent; it never sends more than one command. If the command, or the confirmation that follows it, fails, the RPC returns a non-nil error and no response; the reported target is the one the client asked for (or the step reached) and the reported original is the cached value the decision was based on.",
  ["inputs", "fault_sequences"], "every argument, every cached state, every failure of the unit",
  "No server tests exist.",
  [SRV], [("modified flag and error returns", SRV)], ["RPC responses and commands sent"])
p("C20", "Setters on one resource are serialised from decision to refresh",
  "Two fan setters, or two temperature setters, never overlap: reading the cached value the decision is based on, sending the command, confirming it and refreshing the cache happen within a single uninterrupted hold of one lock common to all setters of that resource.",
  ["schedules"], "every interleaving of concurrent setter RPCs",
  "Lost or duplicated steps need two overlapping RPCs; no server test exists.",
  [SRV], [("fan and temperature setter locks", SRV)], ["RPC responses and resulting speed"])
p("C21", "After a successful change the caches are refreshed before the answer",
  "Before a setter RPC answers that it modified something, it has unconditionally queried the unit, after the command, for the data it changed (comfort temperature: temperatures; fan speed: fan readings and fan profiles; fan profile: fan profiles), so that a getter issued after the answer sees the state after the change.",
  ["histories"], "every history of setter and getter RPCs",
  "No server tests exist; staleness shows only in a following request.",
  [SRV, CACHE], [("forced Update after the command", SRV)], ["getter RPC after setter RPC"])
p("C22", "Fan speed targets are resolved exactly as requested",
  "An absolute target selects exactly that speed; without an absolute target, a step up selects the cached current speed plus one and a step down the current speed minus one. The speed sent to the unit and the speed reported as target are that value, and an out-of-range result is rejected rather than clamped or wrapped.",
  ["inputs", "histories"], "every target message and every cached current speed from 0 to 255",
  "No server tests exist; wrap-around needs unusual cached speeds.",
  [HLP, SRV], [("modifySpeed", HLP)], ["speed command sent, RPC response"])
p("C23", "A fan speed change is confirmed by the unit's own readings",
  "SetFanSpeed reports a modification only after fan readings fetched after the command show both the supply and the exhaust percentage that the cached fan profile of the target speed prescribes (speeds 1 to 4 being away, low, medium, high). If that does not happen within a fixed number of polls the RPC returns an error; the polling always terminates, pauses at least 100 ms between polls, and gives the unit at least three seconds in pauses before it gives up (unless a query fails).",
  ["histories", "fault_sequences"], "every sequence of readings the unit returns",
  "No server tests exist; convergence depends on the unit over several polls.",
  [CACHE, RESP, SRV], [("UpdatePoll", CACHE), ("FanProfiles.Lookup", RESP)], ["SetFanSpeed response"])
p("C24", "The service starts serving only with a working, populated back end",
  "The process opens the connection selected by the configured mode (tcp, or serial at 9600 baud with eight data bits, no parity, one stop bit and reads that do not give up within an exchange's time-out; nothing else) and target; if that fails it exits with a non-zero status and never serves. Otherwise it does not give up: the caches are populated over that same connection and the worker is started before the HTTP server begins to listen on the configured address, with the RPC service reachable through it, and nothing closes that connection or sets it a deadline while the service runs; if listening fails the process exits with a non-zero status.",
  ["configurations", "fault_sequences"], "every configuration and every failure at start-up",
  "The main package has no tests.",
  ["comfo.go", "config.go", "routes.go", TIM], [("main", "comfo.go"), ("ConnectUnit", "comfo.go"), ("NewRouter", "routes.go")], ["exit status, order of start-up actions"])
p("C25", "Every cached value can be encoded in a response",
  "Whatever bytes the unit reports as its device name, the boot info RPC can be answered: text taken from the unit is made valid UTF-8 before it is put into a response message.",
  ["inputs"], "every ten-byte device name",
  "The tests decode one ASCII name and never encode a response.",
  [RESP, PB], [("DeviceName decoding", RESP), ("BootInfo message", PB)], ["GetBootInfo response"])
p("C26", "Numbers are never silently wrapped on their way",
  "From the unit's payload to the RPC response and from an RPC argument to the unit's payload, no numeric conversion changes a value by wrapping or truncating its high bits: wherever the value may not fit, the call reports an error instead. The one intended reduction is the checksum.",
  ["inputs"], "every payload and every argument",
  "The tests use mid-range values; wrap-around needs extreme ones such as a tachometer reading below 29.",
  [RESP, PB, SRV, HLP, REQ, PROTO], [("integer conversions", "all of these files")], ["values in responses and on the wire"])
p("C27", "Each RPC route reaches its own handler in both encodings",
  "A POST to the path of an RPC method invokes exactly the service method of that name, once, with a request decoded into that method's request type, in the JSON as well as the protobuf encoding; an error of the method becomes an error response (its status, and a JSON body with its code and message) and otherwise the method's own result is encoded; a stated content length is that of the body, and no request makes the server itself panic. Unknown methods, wrong prefixes and other content types are answered with an error and invoke nothing.",
  ["inputs", "programs"], "every method, both encodings, every request path",
  "The generated package and the router have no tests.",
  ["rpc/comfo/comfo.twirp.go", "routes.go"], [("ServeHTTP dispatch and per-method handlers", "rpc/comfo/comfo.twirp.go")], ["HTTP responses"])
p("C28", "Proto file, Go code and Python client agree on one schema",
  "The interface definition, the descriptor compiled into the Go package, the Go message structs and service interface, the descriptor compiled into the Python package and the Python endpoints describe the same messages, field names, numbers, types, enum values and methods.",
  ["programs"], "every message, field, enum value and method",
  "Nothing tests the generated code, and a mismatch shows only between a Go server and a Python client.",
  ["rpc/comfo/comfo.proto", "rpc/comfo/comfo.pb.go", "rpc/comfo/comfo.twirp.go", "python/comfo/comfo_pb2.py", "python/comfo/comfo_twirp.py"], [("generated descriptors", "rpc/comfo/comfo.pb.go, python/comfo/comfo_pb2.py")], ["wire format"])
p("C29", "The Python client refuses invalid arguments before sending",
  "The Python client sends a fan speed request only for speeds 1 to 4, a profile request only for profiles 1 to 4 and percentages 15 to 100, and a comfort temperature request only for 0 to 255; for anything else it raises the package's matching exception and sends nothing. Accepted arguments are sent unchanged in the field meant for them.",
  ["inputs"], "every integer argument of the client's setters",
  "The Python client has no tests.",
  [PYC, PYT, "python/comfo/exceptions.py"], [("checks at the top of each setter", PYC)], ["exceptions and requests sent"])
p("C30", "Every Python method has a faithful async twin",
  "Every public client method that does I/O has a twin with the async_ prefix and the same parameters, which runs exactly that method with exactly those arguments off the event loop and returns its result. The loop it uses is the one given at construction or the one running there; an explicitly given loop is never ignored.",
  ["programs", "configurations"], "every public method and every way to construct a client",
  "The Python client has no tests.",
  [PYC], [("run_in_executor wrappers", PYC), ("loop handling in __init__", PYC)], ["results of async calls"])
p("C31", "Every Python method calls its own RPC and decodes its answer",
  "Each public client method issues exactly one RPC, the one it is named for, with a request message of that RPC's type; getters return a wrapper of that RPC's response type in which every field of the message is present under its own name, and setters return the response's Modified flag. Stepping up and down send the step in the right direction and map only the invalid-argument error to False; every other error reaches the caller.",
  ["inputs", "fault_sequences", "programs"], "every method, every response and every error code",
  "The Python client has no tests.",
  [PYC, PYT, "python/comfo/comfo_twirp.py"], [("client methods", PYC), ("wrapper types", PYT)], ["return values and exceptions"])
p("C32", "Client and server meet at the same address and path by default",
  "The port the Python client connects to is the port the service listens on by default, and the path of every endpoint of the Python client is the path under which the Go server serves the method of that name and under which the HTTP router forwards it.",
  ["configurations", "programs"], "every endpoint, default configuration",
  "Nothing tests the two sides together.",
  [PYC, "python/comfo/comfo_twirp.py", "config.go", "routes.go", "rpc/comfo/comfo.twirp.go"], [("default listen address", "config.go"), ("client base URL", PYC)], ["connection refused / bad route"])
p("C33", "Payload bytes survive framing whatever their values",
  "For every payload of up to 255 bytes, what UnmarshalPacket decodes of what MarshalPacket framed is the payload again, even when payload, length or checksum bytes have the value of the escape byte or form, with their neighbours, a control sequence. The frame an exchange sends carries the escaping of exactly the payload it was given (every 07 twice, every other byte once, in order; nothing else of the frame escaped), with the length of the payload before escaping as its length byte, and the payload an exchange returns is the unescaping of exactly the payload part of the frame received.",
  ["inputs"], "every payload",
  "Three payloads are round-tripped, none of which has adjacent escape bytes or ends in one.",
  [PROTO, CONN], [("escapeData/unescapeData", PROTO), ("MarshalPacket/UnmarshalPacket", PROTO)], ["encoded frames", "decoded packets"])
p("C34", "Physical quantities are converted accurately",
  "Every temperature the library decodes is its payload byte divided by two, rounded down to whole degrees, minus 20; every fan speed is 1875000 divided by the fan's 16-bit big-endian tachometer period, rounded down. The byte sent for a comfort temperature of t degrees, t from 0 to 107, is one that the library decodes as t again.",
  ["inputs"], "every raw reading and every comfort temperature that can be set",
  "A few sample values are tested; an offset or rounding that is off for some readings only is not seen.",
  [MSG, RESP], [("temperature codec", MSG), ("Fans decoder", RESP)], ["decoded values"])
p("C35", "Every RPC is answered within the HTTP time-outs",
  "An RPC that does not have to wait for other requests or for a periodic refresh is answered before the HTTP server's own write time-out cuts the connection, also when the unit is slow, silent or does not confirm a change: the pauses and the exchange time-outs it can incur in its handler and, for a flush, in the worker, always sum to less than that time-out. Nothing an RPC does waits for the unit without a bound.",
  ["schedules", "fault_sequences"], "every path of every RPC and every unit latency",
  "No server tests exist, and waiting for seconds is what a test avoids.",
  ["comfo.go", CACHE, SRV], [("WriteTimeout", "comfo.go"), ("polling budget", "comfoserver.SetFanSpeed")], ["HTTP responses"])

p("C36", "Every Go client method calls its own RPC and decodes its answer",
  "Each method of the clients returned by NewComfoProtobufClient and NewComfoJSONClient (used without options) sends at most one HTTP request, through the HTTP client given to the constructor: a POST to the base URL followed by /twirp/comfo.api.Comfo/<its name>, whose body is the encoding of the message given in the client's encoding, whose content type says so and which carries the caller's context; a base URL's own scheme is kept. It returns a message only together with a nil error, and then it is a fresh message of the RPC's response type decoded from the body of a status 200 response to that request; otherwise it returns nil and a non-nil error, which has code and message of the service's error response if there was one with a valid code. The body of every response is closed, and an *http.Client never follows a redirect of the request.",
  ["inputs", "fault_sequences", "programs"], "every method of both clients, every base URL, HTTP client, message, context and response",
  "Nothing in the repository calls the Go clients.",
  ["rpc/comfo/comfo.twirp.go"], [("method URLs by index", "NewComfoProtobufClient, NewComfoJSONClient"), ("request and response handling", "doProtobufRequest, doJSONRequest")], ["HTTP requests sent, values returned by client methods"])
p("C37", "Cached data is refreshed as often as documented",
  "While it runs, the service queries the unit for temperatures and fan readings at least at every second tick of a 5 second period, for fan profiles and bypass state of a 5 minute period, and for boot info and errors of a one hour period (waiting for earlier work aside): each kind of data has a ticker of at most that period, and a tick skips it only if it is younger than the period. A tick never queries the unit for data that was fetched less than a second ago.",
  ["histories", "schedules"], "every tick, every age of every cache",
  "No server tests exist, and refreshes take seconds to hours to come.",
  [TIM, CACHE], [("ticker periods", TIM), ("isStale", CACHE)], ["queries sent by the background worker"])
p("C38", "Settings come from flags, the environment and documented defaults",
  "The mode, the target and the listen address are each taken from the command-line flag of that name (--mode, --target, --listen) or else from the environment variable COMFO_MODE, COMFO_TARGET or COMFO_LISTEN; nothing overwrites them. Debug messages are logged exactly when --debug or COMFO_DEBUG says so. Without flags and environment, the service opens the serial device /dev/ttyUSB0 and listens on port 3094 of all addresses.",
  ["configurations"], "every command line and environment",
  "The main package has no tests.",
  ["config.go", "comfo.go"], [("flag declarations", "config.go"), ("viper set-up", "comfo.go")], ["connection opened, address bound"])
p("C39", "A reply ends exactly at its end sequence",
  "For every reply the unit sends (00, command, length byte N, N payload bytes with every 07 sent twice, checksum, 07 0F), in whatever pieces it arrives and whatever follows it, an exchange takes exactly the bytes up to and including the checksum for the reply, and goes on reading right behind its end sequence, even when length, payload or checksum bytes form control sequences with their neighbours. Nothing is taken for a reply, refused or skipped before the reply has arrived completely.",
  ["inputs", "histories"], "every reply, every way it can be cut into reads, everything behind it",
  "The one test packet that is read has no control sequence inside; each buffer is read at once.",
  [CONN, PROTO], [("split function of the scanner", "ReadPacket"), ("position of a control sequence", "inPacket")], ["packets returned by exchanges, bytes left on the connection"])

p("C40", "Requests and responses pass through the HTTP layer unchanged",
  "Every request for an RPC path that the service accepts reaches the RPC server exactly once with the method, URL, headers and body it arrived with, and the status, headers and body the RPC server writes reach the client as it wrote them, whatever their size and however long the RPC takes within the service's time-outs. Logging, routing, middleware, interceptors and hooks around the RPC server neither consume, shorten nor alter either.",
  ["inputs", "histories"], "every request and response, every handler between the listener and the RPC server, every log level",
  "No test sends a request through the router; a body cut beyond some length or a status lost on errors needs particular requests.",
  ["logger.go", "routes.go", "comfo.go", "rpc/comfo/comfo.twirp.go"], [("handler wrapper", "Logger"), ("handler chain", "NewRouter"), ("server options", "rpc/comfo.NewComfoServer")], ["HTTP requests as the RPC server sees them, HTTP responses as clients see them"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
