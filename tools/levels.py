c("C01", AI + "(lock typestate of the link mutex around connection I/O)", "Decides the property for all inputs and interleavings at the granularity of lock-set reasoning: every connection read/write on every path of every library entry point is under one process-wide lock that is released on every exit." + TRUST)
c("C02", AI + "(goroutine join and channel hand-over typestate)", "Decides that no goroutine started by an exchange can outlive it or block for ever; the late reader after a time-out is a listed known finding." + TRUST)
c("C03", AI + "(waits matched with timers)", "Decides that every wait of an exchange is also a wait for the one timer of that exchange; real time is not modelled." + TRUST)
c("C04", AI + "(ordering typestate of write, scans, comparisons, ACK; split function analysed symbolically)", "Decides the necessary events and comparisons before a nil error on every path; bufio.Scanner is modelled by its contract." + TRUST)
c("C05", AI + "(linear arithmetic modulo 256, inferred sum-over-bytes invariants)", "Decides length and checksum verification for all frames." + TRUST)
c("C06", AI + "(zone satisfiability of every panic condition)", "Decides, for every instruction that can panic on every path of the library, the RPC handlers and the worker, that the panic condition contradicts the path facts." + TRUST)
c("C07", AI + "(dispatch through the prototype table evaluated from its initialisers)", "Decides request code, decoder and result type of every exported getter." + TRUST)
c("C08", AI + "(byte-dependency of each decoded field)", "Decides accepted lengths and, per field, the exact set of payload bytes it is computed from and, for whole numbers and flags, the value as a term over them." + TRUST)
c("C09", AI + "(payload byte terms; write lock held from read to write)", "Decides the eight payload bytes as terms over the unit's reply and the arguments, and the lock span." + TRUST)
c("C10", AI + "(zone bounds on the arguments at every write)", "Decides argument ranges at each send, their acceptance, and the payload terms." + TRUST)
c("C11", AI + "(store/alias inventory of initialised objects)", "Decides that no store reaches an object made by package initialisation and that every result object is allocated by the call." + TRUST)
c("C12", AI + "(lockset race detection over all memory reachable from two concurrent classes)", "Decides, for every pair of accesses to shared memory that can run concurrently, that a common lock is held (reader/writer modes respected) or that the accesses are ordered by program start." + TRUST)
c("C13", AI + "(lock-order graph, lock balance and wait-for rules on every path)", "Decides absence of lock cycles, of missing unlocks and of channel waits under a lock that no other goroutine can satisfy." + TRUST)
c("C14", AI + "(copy provenance of response fields; one lock hold)", "Decides for every getter RPC and every path which cache field each response field is copied from, that the conversion is exact, and that all are read in one hold of that cache's lock." + TRUST)
c("C15", AI + "(stores to shared memory matched with query results on each path)", "Decides on every path of every function of the service that a cache changes only from a successful query made under the same lock hold, wholly and together with its time stamp, and that failures are logged." + TRUST)
c("C16", AI + "(per-turn event summaries of the worker loop; age facts from time comparisons)", "Decides that every path of main to the worker has queried all caches, and that every tick's paths query each cache unless the path facts bound its age; real scheduling of tickers is not modelled." + TRUST)
c("C17", AI + "(channel protocol typestate; per-selector case split)", "Decides the request/answer protocol on all paths of the RPC and of every worker turn, including channel capacity and exclusiveness, for any number of clients." + TRUST)
c("C18", AI + "(case split of every path over the documented argument ranges)", "Decides for every 32-bit argument and cached state, as interval cases on every path of each setter RPC, the error returned, that nothing is sent or stored for invalid ones, and the command arguments as exact terms for valid ones." + TRUST)
c("C19", AI + "(commands sent on each path against the terms of the answer)", "Decides on every path of each setter RPC, for each input case, Modified, target, original and error results against the commands sent and what is known of their success." + TRUST)
c("C20", AI + "(lock hold followed from decision load to last query)", "Decides that one uninterrupted exclusive hold of a lock common to all setters of a resource spans the whole operation, for any number of clients." + TRUST)
c("C21", AI + "(queries required between command and answer on every path)", "Decides on every successful path of each setter RPC which queries follow the command." + TRUST)
c("C22", AI + "(exact linear target terms; wrap-around splits the path)", "Decides the speed sent and reported as exact terms over request and cached speed, for all their values." + TRUST)
c("C23", AI + "(equalities known at success, per target speed; counted loops in the control flow graph)", "Decides what is known about fresh readings whenever success is reported, that polling is bounded by a counter and that each turn pauses; whether a unit ever converges is not modelled." + TRUST)
c("C24", AI + "(typestate of start-up on every path of main; routing and wrapper handlers followed to the RPC server)", "Decides what has happened before the address is bound and how main can end, for every configuration and failure; viper, net/http and gorilla/mux are taken at their documentation." + TRUST)
c("C27", AI + "(routing conditions, decode/invoke/encode typestate and result provenance on every path of the generated server)", "Decides for every HTTP request which method the generated server invokes, with what, how often, and what is answered; net/http, gorilla/mux and the protobuf codecs are taken at their documentation, panics inside a method are not followed." + TRUST)
c("C25", AI + "(string provenance and UTF-8 validity of every text in an answer, followed back through the caches to the decoders)", "Decides for every RPC answer and every decoder path that each text is valid UTF-8 for all bytes the unit may send; texts of error responses and log lines are not covered." + TRUST)
c("C26", AI + "(interval check of every conversion and operation in the exact term of each number)", "Decides for decoded fields, payload and frame bytes, library arguments and RPC answer fields that no conversion or arithmetic in their computation can wrap or cut high bits, for all inputs; rounding of fractions is not judged." + TRUST)
PY = "Path-sensitive abstract interpretation of the Python syntax tree (interval, provenance and effect domains, every RPC outcome a separate path) "
PYTRUST = " Trusted: the Python standard library, protobuf runtime and twirp package at their documentation (modelled in tools/py/world.py). Constructs the interpreter does not know are reported as violations."
c("C28", "Schema comparison: parsers for .proto and FileDescriptorProto, queries over the type-checked Go program, abstract interpretation of the generated Python modules", "Decides agreement of every message, field, enum value and method across the .proto file, both compiled descriptors, Go structs, getters, tables, interface and Python endpoints; implementation details of the protobuf runtimes are trusted." + PYTRUST)
c("C29", PY + "with integer intervals per argument", "Decides for every integer argument of each setter and twin, given by position or name, what is sent and which exception is raised; arguments that are not integers are not covered." + PYTRUST)
c("C30", PY + "comparing each method with its twin path by path", "Decides for all arguments and RPC outcomes that method and twin send the same requests and end alike, and on which loop's executor each request runs, for three ways of construction." + PYTRUST)
c("C31", PY + "following each response field to the result", "Decides for every RPC outcome and error code the number, target and content of requests and the result or exception; calls after state-changing calls are covered in sequences of two." + PYTRUST)
c("C32", PY + "and the Go route/configuration facts", "Decides the URL of every endpoint for any host against the Go server's path table, router and default listen address." + PYTRUST)
c("C33", "Structural induction over the input tokens of the escaping functions (loop-head states of read and write positions closed under every next token), tied to frames and packets by " + AI, "Decides for every payload that the escaper and the unescaper used are inverse functions and that frames carry exactly the escaped payload; where the stream scanner ends a frame is C39." + TRUST)
c("C34", AI + "(each decoded quantity brought into the normal form scale*floor(x/step)+offset or floor(constant/x) over payload bytes)", "Decides for every payload byte the formula of each decoded temperature and fan speed, and that the byte sent for each settable temperature decodes to it again." + TRUST)
c("C35", AI + "(waits of known length summed along every path, loops multiplied by the bound of their counter, against the WriteTimeout the server is started with)", "Decides for every path of every RPC an upper bound of its own pauses and exchange time-outs; waiting for locks, for the worker's current turn and for writes to the connection is not counted." + TRUST)
c("C36", AI + "(provenance of URL, body and result of every HTTP request of the generated clients; resource typestate of the response body)", "Decides on every path of every client method which request is sent and what is returned; net/http and the protobuf codecs are taken at their documentation; clients with hooks or interceptors are not covered." + TRUST)
c("C37", AI + "(bounds on the age of cached data on every tick's path, against constant ticker periods)", "Decides for every tick of the worker which data it queries or skips and at which age; that tickers tick on time and that the worker is not held up is assumed." + TRUST)
c("C38", AI + "(typestate of the settings: flag declared, parsed, bound, environment prefix set, before each read)", "Decides for every read of a setting on every path of start-up where its value can come from; precedence is viper's documented behaviour." + TRUST)
c("C39", "Structural induction over the bytes of a reply (loop-head states of the split function closed under every next byte and under the data ending there), tied to the exchange by " + AI, "Decides for every reply, cut anywhere, what the split function used for replies returns; that bufio.Scanner calls it as documented is assumed." + TRUST)
c("C40", AI + "(effects of every handler between listener and RPC server on the request before it is passed on and on the response writer; typestate of the one hand-over; interceptors and hooks checked to be transparent)", "Decides for every path of every wrapper, middleware, interceptor and hook the program installs whether requests and responses are passed on unchanged; net/http, gorilla/mux and twirp are taken at their documentation." + TRUST)
