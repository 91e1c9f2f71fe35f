package main

const how = "Trace-partitioned abstract interpretation of the SSA form (go/ssa) of /repo's current source: value numbering with difference bounds, lock sets, goroutines and channels, for all inputs; loops by inductive invariants; nothing is executed. "

func init() {
	checks["C01"] = propCheck{checkC01, how + "Typestate of the link lock around every read and write of the connection on every path of every exchange."}
	checks["C02"] = propCheck{checkC02, how + "Every goroutine started by an exchange is followed to its end on every path; joins and channel capacities are matched."}
	checks["C03"] = propCheck{checkC03, how + "Every wait of the calling goroutine on every path of an exchange is matched with the timer that can end it."}
}

func init() {
	checks["C04"] = propCheck{checkC04, how + "On every path of an exchange that can return a nil error: obligations on what was written, scanned (the split function is analysed for every buffer) and compared before."}
	checks["C05"] = propCheck{checkC05, how + "On every accepting path: length and checksum equations over the bytes of the frame and the packet returned, decided in linear arithmetic modulo 256 with a sum-over-bytes term inferred from the loop."}
}

func init() {
	checks["C06"] = propCheck{checkC06, how + "Every index, slice, dereference, assertion, division, shift, make, map and channel operation and explicit panic reachable from a library call, handler, the worker or main is an obligation."}
}

func init() {
	checks["C07"] = propCheck{checkC07, how + "Every path of every getter: the request sent, the reply used, the value returned with and without an error."}
	checks["C08"] = propCheck{checkC08, how + "For every accepting path the byte dependency set and the exact linear value of each field, compared with the protocol's layout table."}
}

func init() {
	checks["C09"] = propCheck{checkC09, how + "SetFanProfile analysed for each of the four modes: every payload byte is compared with the requested value or the unit's reply, and the hold of the profile lock is followed through all senders."}
	checks["C10"] = propCheck{checkC10, how + "Interval of every argument at every exchange, exact payload bytes of each setter, and the bytes of the frame written for an arbitrary packet."}
}

func init() {
	checks["C11"] = propCheck{checkC11, how + "Every store, append, copy and foreign writer reached from any entry point, resolved to the memory it may write; every result resolved to where it was allocated."}
}

func init() {
	checks["C12"] = propCheck{checkC12, how + "Every load and store of package variables and what they refer to, with the locks held there and the goroutines that can be there; every conflicting pair is an obligation."}
	checks["C13"] = propCheck{checkC13, how + "Lock sets at every return, panic, lock, library call and channel operation; the acquisition order over the whole program is searched for cycles."}
}

func init() {
	checks["C14"] = propCheck{checkC14, how + "Every field of the message returned on every path of every getter RPC, as a term over the cache contents found in the critical section."}
	checks["C15"] = propCheck{checkC15, how + "Contents of every cache at every release of a lock and every end of a path that stored to it, and the fate of every query's result."}
}

func init() {
	checks["C16"] = propCheck{checkC16, how + "Every path of main up to the start of the worker; every turn of the worker for every ticker, with the age facts known when the unit is not queried."}
	checks["C17"] = propCheck{checkC17, how + "Every turn of the worker that takes a request, split by selector; every path of the flush RPC; all users of the two channels."}
}

func init() {
	checks["C18"] = propCheck{checkC18, how + "Every path of every setter RPC, split by the documented argument ranges (eight cases for the speed, eight for profiles, two for the temperature): result, library calls, cache stores and command arguments."}
	checks["C19"] = propCheck{checkC19, how + "Every path of every setter RPC: commands sent and their results against the fields of the answer, for each input case and each cached snapshot it can be based on."}
	checks["C20"] = propCheck{checkC20, how + "Every path of every setter RPC: the hold of a lock from the load of the cached value to the last query, and the locks at every command in the service."}
	checks["C21"] = propCheck{checkC21, how + "Every path of every setter RPC from the command to the answer."}
	checks["C22"] = propCheck{checkC22, how + "Every path of SetFanSpeed in eight cases over absolute target, direction and cached speed."}
	checks["C23"] = propCheck{checkC23, how + "Every successful path of SetFanSpeed split by target speed; every turn of every loop that queries the unit; loop counters in the control flow graph."}
}

func init() {
	checks["C24"] = propCheck{checkC24, how + "Every path of main, through connecting, populating, starting the worker and routing, to serving or exiting; every use of the connection in the service."}
}

func init() {
	checks["C27"] = propCheck{checkC27, how + "Every path of the RPC server's ServeHTTP, on the server NewComfoServer builds, for every HTTP request: the conditions on method, path and content type, the body decoded, the service method invoked and the answer written."}
}

func init() {
	checks["C25"] = propCheck{checkC25, how + "Every text in every answer of every RPC, traced to the calls, fields and variables it is made from, and those to the bytes of the unit's reply."}
	checks["C26"] = propCheck{checkC26, how + "Every number handed from one part to the next (decoded fields, library results, payload bytes, library call arguments, RPC answers): each integer operation and conversion in the term it is computed by, with the ranges the path establishes."}
}
