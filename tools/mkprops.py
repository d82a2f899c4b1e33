#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Single source for property texts."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Encoding then decoding gives back an equal value",
  "Encoding any supported value (nil, bool, integers of every width, float32/float64, strings of arbitrary bytes, and nested slices, arrays and maps of these) and decoding the bytes yields an equal value: integers numerically equal with their signed/unsigned class kept, floats bit-equal at top level and numerically equal inside containers, strings byte-identical, sequences in order, maps with exactly the same entries. Decoding consumes exactly the bytes that encoding produced, so values written back to back into one stream are read back one by one. A value of an unsupported kind (pointer, struct, function, channel, complex), at any depth, and a failing writer make Encode return an error rather than success.",
  ["inputs"], "all values up to nesting depth 200 built from the supported kinds (boundary integers, all float classes including zero and denormals, long strings), map keys scalar, not NaN and distinct after encoding; all sequences of such values in one stream; every write-failure position",
  "The 16 codec tests encode one mid-range value per type; zero floats, denormals, nesting, streams of values and write failures are never tried.",
  ["codec/encoder.go", "codec/decoder.go", "codec/any.go"],
  [("encode/encodeValue type switches", "codec/encoder.go"), ("decode tag switch", "codec/decoder.go")],
  obs=["codec.NewAny(v).Encode(w)", "IAny.Decode(r)", "IAny.Any()"])

p("C02", "Decoding arbitrary bytes is safe, bounded and chunking-independent",
  "Decoding any byte string terminates with a value or an error: it never panics or exhausts the stack, and the memory it takes is proportional to the bytes actually supplied, not to the lengths they claim. A strict prefix of a valid encoding always gives an error, never a value. The outcome does not depend on how the reader splits the bytes over Read calls, including one byte at a time.",
  ["inputs"], "all byte strings up to several MB (random, mutated valid encodings, hostile lengths, unhashable map keys, deep nesting, every truncation point) and all reader chunkings",
  "The tests decode only bytes the encoder has just produced, from a bytes.Buffer that never returns a short read.",
  ["codec/decoder.go"], [("length-prefixed reads", "codec/decoder.go readUint16..64, cStr32/cArr32/cMap32"), ("nesting recursion", "codec/decoder.go decode")],
  obs=["IAny.Decode(r)", "process memory and exit status"])

p("C03", "Typed accessors are exact or fail",
  "Every typed accessor of a held value returns either exactly that value in the requested type or an error; it never returns a wrapped, truncated or foreign value as success and never panics. An accessor succeeds whenever the held built-in value belongs to the requested class (bool, string, signed integer, unsigned integer, float, sequence, map) and fits the requested type, whether the value was given to NewAny or came from decoding; float64 to float32 rounds to nearest. Any() returns the value that was given or decoded.",
  ["inputs"], "all pairs of held value (every built-in type, boundary and random values, typed slices/arrays/maps, unsupported kinds) and accessor, before and after an encode/decode trip",
  "Tests call the one matching accessor on one in-range decoded value per type.",
  ["codec/any.go", "codec/API.go"], [("accessor methods and normalize", "codec/any.go")],
  obs=["IAny accessors"])

p("C04", "The wire format is the documented MsgPack subset and stays stable",
  "Encoded values follow the published tag table: one MsgPack tag byte, big-endian payloads, 32-bit lengths for strings, arrays and maps, integers accepted in any width, and floats as a tag followed by their IEEE bits as an encoded unsigned integer; an independent decoder of that table recovers the same value from what is encoded here, and every well-formed encoding of the table, minimal or not, decodes here to the value it denotes. Packets between hub and docks are framed by a 4-byte little-endian length followed by the packet id and that packet's fields in a fixed order, so builds of different versions interoperate.",
  ["inputs", "configurations"], "all supported values, all alternative integer widths, and every packet kind a hub or dock sends (register, ready, query, rpc; requests and responses) observed on real connections",
  "Tests only check that this build reads what this build wrote: a change made on both sides (byte order, tag value, field order) passes unnoticed.",
  ["codec/code.go", "codec/encoder.go", "codec/decoder.go", "serializer.go", "protocol.go"],
  [("tag constants", "codec/code.go"), ("frame header", "serializer.go Marshal/Slice/Unmarshal"), ("packet ids and field order", "protocol.go")],
  obs=["bytes written by Encode", "bytes on hub and dock connections"])

p("C05", "An in-process call runs its method exactly once and returns its own result",
  "A call that returns without error has run the named method exactly once, with the arguments given, and returns exactly that execution's results in order; a call never receives the outcome of another call. This holds for any number of goroutines calling concurrently, through separate caller handles or sharing one. No execution happens that no call asked for.",
  ["schedules", "inputs", "histories"], "all interleavings of many goroutines calling many methods (0..n parameters and results, variadic, mixed types) on one or several callees",
  "TestNormalCall makes three sequential calls from one goroutine and only prints the results.",
  ["chancall/caller.go", "chancall/callee.go", "chancall/meta.go", "chancall/data.go"],
  [("request channel and per-call response", "chancall/caller.go, callee.go")],
  obs=["ICaller.Call/CallWithResult", "target method bodies"])

p("C06", "A feature runs one call at a time, in the order its callers issued them",
  "Calls to one feature never overlap: each method invocation starts only after the previous one has returned, whichever local or remote callers issued them and even if the earlier call has already been reported as timed out. Successive calls issued one after the other by one caller run in the order issued. Different features make progress independently: a busy feature does not block calls to another.",
  ["schedules", "histories"], "all mixes of concurrent local callers and remote docks calling one feature and several features, with slow, fast and timed-out methods",
  "No test calls one feature from two goroutines.",
  ["chancall/callee.go", "dock.go"], [("one handling goroutine per callee", "chancall/callee.go handling")],
  obs=["start/end events in method bodies", "call and return events at callers"])

p("C07", "Call timeouts are honoured: never early, never missing, one outcome per call",
  "A call fails with a timeout error only if its method was still running when the method's configured timeout (1 second unless set; fractions of a second count) had elapsed, and it does fail promptly then even if the method never returns; the setting of one method does not affect the others, and it applies equally to callers in other docks. Every call yields exactly one outcome. The late result of a timed-out call is discarded and never delivered to any later call.",
  ["schedules", "inputs", "histories"], "all timeouts (fractional, sub-second, multi-second), all method durations relative to them, and all sequences mixing timed-out and successful calls on one or several caller handles",
  "TestTimeout makes one call that would also 'time out' if the timeout were zero, and never calls again afterwards.",
  ["chancall/callee.go", "chancall/meta.go", "slot.go"], [("track timer per request", "chancall/callee.go"), ("timeout table", "chancall/meta.go setTimeout/timeout")],
  obs=["ICallee.SetTimeout, ISlot.SetTimeout", "ICaller.Call/CallWithResult results and elapsed monotonic time"])

p("C08", "A bad call fails alone",
  "A call that cannot be carried out - unknown method, too few or too many arguments, arguments that cannot become the parameter types or cannot be sent, a method that panics, results that cannot be sent, or a feature the addressed dock does not carry - returns an error to its own caller, in the same dock and across docks. Nothing else is affected: no process exits, a call rejected for its name or arguments runs nothing, and the feature keeps serving the calls before and after it.",
  ["inputs", "histories", "fault_sequences"], "all such bad calls in any order, interleaved with good calls from other callers, local and remote",
  "No test makes a failing call other than a timeout; a crash of the process would end the test run.",
  ["chancall/callee.go", "chancall/meta.go", "dock.go", "rpc.go", "serializer.go"],
  [("argument conversion and reflect call", "chancall/meta.go call"), ("remote request handling", "dock.go OnPacket cRpcRequest")],
  obs=["error results at callers", "process exit status", "subsequent good calls"])

p("C09", "A call means the same whether the feature is in the same dock or another",
  "For arguments made of nil, bools, numbers, strings, slices and maps, a call through a slot gives the same outcome whether the target feature is carried by the caller's own dock or by another dock: the method sees the same argument values in its declared parameter types, the caller sees the same results (equal up to integer width and generic container types) and success or failure agrees. Call and CallWithResult agree on success or failure.",
  ["inputs", "configurations"], "all argument tuples over the supported kinds (but no []byte or []rune passed for a string parameter) and a range of method signatures with results that can be sent (typed scalars of every width, strings, typed slices and maps, interface{}, variadic, multiple results)",
  "TestOneDock/TestMultiDocks pass one string and two small ints and print the sum.",
  ["dock.go", "rpc.go", "slot.go", "chancall/meta.go", "protocol.go", "codec/encoder.go"],
  [("local/remote dispatch", "dock.go call/callWithResult"), ("argument conversion", "chancall/meta.go")],
  obs=["ISlot.Call/CallWithResult", "arguments seen in method bodies"])

p("C10", "Cross-dock calls: each executes once and gets its own reply, under any load",
  "Every call issued to a connected dock completes with the result of the one execution its own request caused: no request is lost, dropped under load or executed twice, and no reply is handed to another call. This holds for any number of simultaneous calls from any goroutines of any docks, in both directions at once, for small and large payloads, and whatever delay, segmentation or coalescing the network applies. Identifiers of calls that are in flight at the same time are distinct.",
  ["schedules", "inputs", "histories"], "all concurrent call mixes (1 to several hundred in flight, 2 to 5 docks, calls in both directions, payloads from 0 to 1 MB), over real TCP, through a segmenting/delaying proxy and over the mock network",
  "TestMultiDocks makes two sequential remote calls; nothing is concurrent, and the whole exchange is under 100 bytes per packet.",
  ["dock.go", "rpc.go", "network/peer.go", "serializer.go"],
  [("pending table and call index", "rpc.go newRpc, dock.go rpcs"), ("send queue", "network/peer.go Send"), ("reply matching", "dock.go OnPacket cRpcResponse")],
  state=[("pending calls", "calls whose reply has not arrived", "dock.go")],
  obs=["ISlot.CallWithResult at callers", "executions in method bodies", "RPC packets at a fake peer dock"])

p("C11", "Discovery finds every discoverable feature, in any start order",
  "A call to a discoverable feature completes as soon as some dock carrying it has joined the hub, whichever order docks start in and however many calls are already waiting; all waiting calls complete, each exactly once. A call to a feature carried by the caller's own dock is served there and never leaves the dock. A feature carried as not discoverable is never announced to the hub or to other docks.",
  ["schedules", "configurations", "histories"], "all start orders of 2 to 6 docks with random feature placement and visibility, calls issued before, during and after the target dock joins, over TCP (IPv4 and IPv6) and the mock network",
  "TestMultiDocks starts three docks nearly at once with one placement; all features are discoverable and unique.",
  ["dock.go", "hub.go", "slot.go"], [("register/ready/query handshake", "dock.go OnPacket, hub.go OnPacket"), ("collect filters by discoverable", "dock.go collect")],
  obs=["ISlot.CallWithResult", "register/ready packets at a fake hub and a fake dock"])

p("C12", "The hub hands out valid, distinct ports",
  "The hub answers every registration with a port greater than 20000 and at most 49000 that is not on the hub's black list and differs from every port it gave before to the same host; hosts are independent of each other. This holds however many docks register concurrently, and when a host's range is used up the registration is refused with an error packet while the hub keeps serving. A dock listens on exactly the port it was given.",
  ["schedules", "histories", "configurations"], "all concurrent registration histories from several hosts, all black lists (including runs of consecutive ports at the start of the range), up to exhaustion of the range",
  "Tests register at most three docks with an empty black list over a mock that ignores hosts.",
  ["hub.go", "dock.go"], [("allocate under mutex", "hub.go allocate"), ("listen on assigned port", "dock.go OnPacket cRegisterResponse")],
  state=[("assignPorts", "last port given per host", "hub.go"), ("blackPorts", "ports never given", "hub.go")],
  obs=["register response packets", "listening port of the dock"])

p("C13", "The hub routes a query only to a ready, connected carrier, newest first",
  "Each query is answered exactly once, to the peer that asked, with the address (host as seen by the hub, assigned port) of a dock that announced that very feature, declared itself ready for it, and has not been seen to disconnect; among several the most recently registered one is chosen. A query for a feature that has no such dock is answered as soon as one declares itself ready. Registrations, readiness and disconnects of other docks or features do not affect it.",
  ["schedules", "histories"], "all histories of register, ready, query and disconnect events by up to 8 docks over a few feature names (a dock registers a feature once and before it declares itself ready), sequential (exact oracle) and concurrent (linearizable oracle)",
  "Tests query at most two features, each with a single permanently connected carrier.",
  ["hub.go"], [("stub list per feature, back-to-front search", "hub.go OnPacket"), ("disconnect handling", "hub.go OnClosed")],
  state=[("docks", "carriers per feature with readiness", "hub.go")],
  obs=["query response packets at fake docks"])

p("C14", "Sent objects arrive exactly once, in order and intact",
  "On a connection that stays open, every object passed to Send is delivered to the other side's sink exactly once, in the order one goroutine sent them and byte-identical, regardless of how many are queued, how large they are, how the stream is cut into reads, and whether they were sent from the connection callback; a socket-wide Send reaches every connected peer. This holds for every serializer registered by name, including ones registered while sockets exist, over TCP and over the mock network alike.",
  ["schedules", "inputs", "configurations"], "all message sequences (0 B to several MB, bursts of hundreds to thousands without pause), several sender goroutines and peers, slow readers, arbitrary segmentation and coalescing, txt and custom framings, both network kinds",
  "TestFlow sends one 15-byte string.",
  ["network/peer.go", "network/socket.go", "network/mock.go", "network/API.go", "network/txt_serializer.go"],
  [("send queue and writer goroutine", "network/peer.go Send/run"), ("reassembly with Slice", "network/peer.go run"), ("mock connection", "network/mock.go")],
  obs=["IPeer.Send, ISocket.Send", "ISocketSink.OnPacket"])

p("C15", "Connection callbacks follow the connection's life",
  "Each connection reports OnConnected exactly once and before any packet of that peer; OnClosed exactly once and after OnConnected, whether the local or the remote side closes or the link breaks; packets received in full before a remote close are delivered before OnClosed. Closing a socket closes all its connections and releases its listening address, and connections attempted after Close has returned are not reported. The dialing side's peer is its own (IsSelf) and the accepting side's is not, and the two sides agree on each other's addresses.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of connects, sends, local closes, remote closes and resets, many peers per listener, over TCP and the mock network",
  "TestFlow's OnClosed is empty and nothing is checked after Close.",
  ["network/socket.go", "network/peer.go", "network/mock.go"], [("accept loop and Close", "network/socket.go"), ("close", "network/peer.go")],
  obs=["ISocketSink callbacks", "raw client connections"])

p("C16", "No peer can take a hub or dock down, or disturb its other peers",
  "Whatever bytes a peer sends to a hub or dock port (malformed, truncated, oversized lengths, unknown or unexpected packets, wrong field types), at whatever point it disconnects, and however many connections it opens, the process keeps running and other peers' registrations, queries and calls are served as before. At most the offending peer is ignored or disconnected. Packets only the hub may send have no effect when they come from another peer.",
  ["inputs", "fault_sequences"], "all byte streams up to 1 MB from hostile peers (structure-aware and random), all disconnect points, connection floods up to descriptor exhaustion, against a live hub and a live dock; hostile peers use feature names and host addresses of their own, as a name may be carried by anybody and ports are counted per host",
  "Tests only ever connect well-behaved peers of the same build.",
  ["serializer.go", "protocol.go", "hub.go", "dock.go", "network/peer.go", "network/socket.go"],
  [("frame and packet parsing", "serializer.go, protocol.go"), ("packet dispatch", "hub.go, dock.go OnPacket"), ("accept loop", "network/socket.go")],
  obs=["process exit status", "service to control peers after each attack"])

p("C17", "Concurrent use is free of data races",
  "Concurrent use of the framework from many goroutines - starting and closing docks and hubs, calling, visiting, setting timeouts, registering proxies and serializers, sending, connecting and disconnecting - performs no unsynchronised conflicting memory accesses and never hits a concurrent-map failure, a nil dereference or a send on a closed channel.",
  ["schedules"], "all interleavings of the exported operations and network events reached by mixed stress workloads on 8 cores, over TCP and the mock network; callers and methods leave alone what they have passed on (the arguments of a timed-out local call still belong to the method, results to the caller)",
  "The test script pins the root package to one CPU and runs without the race detector because the tests are racy.",
  ["dock.go", "hub.go", "rpc.go", "runtime.go", "registry.go", "slot.go", "network/API.go", "network/peer.go", "network/socket.go", "network/mock.go", "chancall/meta.go", "chancall/callee.go"],
  [("mutexes and channels around shared maps", "dock.go, hub.go, network/*.go, chancall/*.go")],
  obs=["Go race detector reports", "process exit status"])

p("C18", "Features are started once and destroyed once",
  "Every feature carried by a dock gets OnStart exactly once, after the hub has accepted the dock's registration and not before, with a slot that can already make calls, and one whose OnStart does not return keeps no other from starting or being called. Close gives every feature of every dock of the process OnDestroy exactly once, closes the newest instance first, and releases all ports and connections, and a second Close does nothing. Startup and Serve return only on an interrupt signal, and Carry refuses an object that is not a feature.",
  ["schedules", "configurations", "histories"], "all numbers of docks and features per process, concurrent Startup calls, slow or blocking OnStart, Close at any time after start, interrupt before or after Close (what is closed before the hub has accepted it may or may not be started)",
  "Tests never observe OnDestroy and use a single well-behaved OnStart.",
  ["ferry.go", "runtime.go", "dock.go", "slot.go"], [("instance list and wait", "runtime.go"), ("start/Close", "dock.go")],
  state=[("insts", "instances to close", "runtime.go")],
  obs=["IFeature.OnStart/OnDestroy", "listening ports", "return of Startup/Serve"])

p("C19", "Generated proxies compile and forward faithfully",
  "For every Go source tree whose interface methods use parameters and results of predeclared, slice, map and empty-interface types, the generator produces a proxy file that compiles, in which each proxy has exactly its interface's methods with the same signatures and is registered under the interface's name. Each proxy method calls the same-named method of that feature with all arguments in order and returns the results in order in their declared types, or zero values if the call fails, whether the feature is local or remote.",
  ["programs", "inputs"], "all interface declarations of that subset (grouped, unnamed and clashing parameter names, several results, several interfaces per file and per declaration group, several files and sub-directories; exported methods, interface names distinct ignoring case, package main at the top), exercised with random arguments on local and remote features",
  "The generator has no test; the committed proxy.gen.go covers three simple methods.",
  ["tool/ferry.gen.go"], [("AST scan", "tool/ferry.gen.go parseFile"), ("template", "tool/ferry.gen.go gencode")],
  obs=["generated source", "go build of it", "calls recorded by an ISlot", "values returned by proxies"])

p("C20", "Losing a dock fails its pending calls and diverts later ones",
  "When the connection to a dock (or to the hub) is lost, every call waiting for a reply over it returns an error instead of waiting forever, and no call is executed twice because of the loss. Calls made afterwards reach another dock carrying the feature if there is one, or wait until one joins; a caller's process survives an address that can no longer be reached. Docks and calls not involved are unaffected.",
  ["fault_sequences", "crash_points", "histories"], "all crash points of a peer dock (before accepting, before announcing, before ready, before, while and after executing a request, mid-frame in the reply), hub loss, close of the own dock, and sequences of crash and rejoin; a call may fail once for each lost connection it could have been sent over",
  "No test closes a dock while another is using it.",
  ["dock.go", "hub.go", "rpc.go", "network/peer.go", "network/socket.go"],
  [("disconnect notification", "network/peer.go"), ("pending calls per peer", "dock.go OnClosed"), ("stub removal", "hub.go OnClosed")],
  obs=["ISlot.Call/CallWithResult outcome after a fake peer dies", "executions counted at features"])

p("C21", "Finished work holds no resources",
  "Once calls have returned and peers have disconnected, the process is back to the goroutines and file descriptors it had before: neither completed, failed nor timed-out calls, nor closed connections, nor waiting queries of departed peers leave anything behind. A hub with queries waiting for an absent feature consumes no processor time for waiting. Repeating the same work does not grow memory.",
  ["histories", "schedules"], "all repetition counts of call, connect/disconnect and query cycles, including long configured timeouts",
  "Tests end their process right after one exchange and measure nothing.",
  ["chancall/callee.go", "dock.go", "hub.go", "network/peer.go", "network/socket.go"],
  [("per-request timer", "chancall/callee.go track"), ("peer bookkeeping", "network/socket.go"), ("pending query handling", "hub.go")],
  obs=["goroutine count", "open descriptors", "process CPU time", "heap after GC"])

p("C22", "A set behaves like a mathematical set",
  "Add reports true exactly when the item was absent and makes it present; Remove reports true exactly when it was present and makes it absent; ToSlice lists each present item exactly once and changes nothing. Items are told apart by Go equality including their dynamic type, and the slice returned is the caller's own.",
  ["histories", "inputs"], "all operation sequences over items of mixed comparable types, including nil, empty values and equal values of different types",
  "The tests add and remove one item and count three others.",
  ["misc/set.go"], [("map of items", "misc/set.go")], obs=["ISet.Add/Remove/ToSlice"])

p("C23", "Visit returns the registered proxy of the visiting slot",
  "Visit(name) returns the object made by the maker registered under that name, made for the very slot that visits; repeated visits by a slot return the same object, different slots get their own, and an unregistered name gives nil. This holds under concurrent visits and registrations, and a name registered later becomes visitable.",
  ["schedules", "histories"], "all interleavings of Register and Visit over several names and slots; makers may run more than once when first visits coincide",
  "No test calls Visit or Register (only the example program does).",
  ["registry.go", "slot.go", "ferry.go"], [("maker registry", "registry.go"), ("per-slot cache", "slot.go Visit")],
  obs=["ferry.Register", "ISlot.Visit"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
