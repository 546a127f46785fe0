BEX = "bounded exhaustive execution of the real code against a reference model"

# ---------------------------------------------------------------- client
prop("C01", "Every caller gets the reply to its own request",
 "However many goroutines share one connected client and whatever they ask, every operation that reports success returns the controller's answer to exactly that operation's own request. A reply that arrives late, after a timeout or a failed exchange, is never delivered to another operation. Consecutive requests on one connection never carry the same sequence count.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving (up to a preemption bound) of up to three concurrent operations with every single timeout, dropped or delayed reply; every order of operation kinds at every position of the 16-bit sequence counter",
 "the existing tests issue one operation at a time against a healthy peer; a mix-up needs two callers, a timeout at the right exchange and a particular wake-up order",
 ["sendreceive.go", "services.go", "getattr.go", "client.go", "connect.go", "disconnect.go"],
 [("one exchange at a time under the client's lock", "sendreceive.go send_recv_data"), ("sequence counter", "services.go sequencer"), ("connection is dropped after a failed exchange", "sendreceive.go, disconnect.go")],
 observe=["return values of Client.Read/Write/GetAttrSingle/GetAttrList/ReadMulti", "bytes on the connection"],
 technique=BEX,
 note='Exhaustive schedule exploration of the real client under a controlled scheduler')

prop("C02", "Connecting and disconnecting always leave a clean, reusable client",
 "A client reports connected exactly when the whole handshake succeeded and no disconnect or broken exchange followed. Whatever step of connecting or disconnecting fails, the call returns an error in bounded time, no network connection stays open, nothing panics, and a later attempt against a healthy controller succeeds. Operations on a client that is not connected return an error.",
 ["fault_sequences", "histories", "schedules"],
 "every failure mode at every step of the handshake (dial, session, large and small forward open, close), every sequence of connect/use/break/disconnect operations up to a depth, with automatic connect on and off",
 "tests only connect to hardware or use literal packets; no test makes a handshake step fail",
 ["connect.go", "disconnect.go", "client.go", "sendreceive.go"],
 [("handshake", "connect.go"), ("connection status and automatic connect", "client.go, connect.go checkConnection"), ("orderly close", "disconnect.go")],
 observe=["Client.Connected", "error results", "dialled connections and their close calls"],
 technique=BEX,
 note='Every history of lifecycle calls with every placement of network faults, and every schedule of concurrent lifecycle calls, on the real client')

prop("C03", "Malformed or truncated replies never crash, hang or bloat the client",
 "Whatever bytes a peer sends in reply to any client operation, the operation returns: an error, or a result the bytes support. It never panics, never blocks once the peer has closed or fallen silent for the socket timeout, and never allocates memory out of proportion to what was received.",
 ["inputs", "fault_sequences"],
 "every truncation, every single-byte corruption over boundary values, and every length/count/offset field boundary of the reply to every client operation",
 "tests parse a handful of well-formed captured replies",
 ["sendreceive.go", "items.go", "read.go", "write.go", "getattr.go", "listalltags.go", "listsubtags.go", "listmembers.go", "listidentity.go", "listservices.go", "listallprograms.go", "datatable.go", "connect.go"],
 [("reply framing", "sendreceive.go recvData"), ("item parsing", "items.go readItems"), ("per-service parsing", "read.go, write.go, getattr.go, list*.go")],
 observe=["return of each exported Client method", "allocations"],
 technique=BEX,
 note='quick: every single change; thorough: pairs of changes')

prop("C04", "A request the controller refuses is reported as an error",
 "Whenever the controller answers an operation, or any request that makes up the operation, with a status other than success, the operation returns an error and leaves the caller's destination variables as they were. This holds for every status code at every layer (encapsulation, service, per-tag) and every exported operation. Requests an operation makes only to help itself are the exception, as long as the operation's own result is right without them: a refused large connection is replaced by a standard one, a partial transfer is followed up, an unreadable firmware revision only keeps instance addressing off, and ListAllTags does without the program list and without the template of a tag.",
 ["inputs", "fault_sequences"],
 "every encapsulation, general and per-entry status byte, with and without extended status, injected into each request of every client operation",
 "tests cover one partial-transfer status on one read path",
 ["read.go", "write.go", "getattr.go", "sendreceive.go", "listalltags.go", "listsubtags.go", "listmembers.go", "listallprograms.go", "datatable.go", "connect.go", "partialread.go"],
 [("status checks of each reply header", "read.go, write.go, getattr.go, list*.go, datatable.go")],
 observe=["error result and destination of each exported Client method"],
 technique=BEX,
 note='one refused request per operation run, every status')

prop("C05", "A typed read returns exactly what the controller holds",
 "For every supported data type, array range and nested structure, a successful Read stores in the destination exactly the values the controller holds for those elements, however the controller fragments its replies and however the network splits the bytes. A destination whose Go type does not correspond to the tag's type yields an error rather than a wrong value, and an ordinary readable range never fails.",
 ["inputs", "configurations"],
 "16 controller types x boundary values x element counts x start indexes x fragment sizes x connection sizes x delivery splits, against a reference controller",
 "tests replay a few captured replies; fragmentation, every type and every split of the stream are not sampled",
 ["read.go", "types.go", "pack.go", "sendreceive.go", "ioi.go"],
 [("read and partial transfer reassembly", "read.go Read_single, readFragmented"), ("type decoding", "types.go readValue"), ("structure decoding", "pack.go Unpack")],
 observe=["destination of Client.Read, result of Client.Read_single"],
 technique=BEX,
 note="Exhaustive over the stated grid of types, values, counts, offsets, fragment and connection sizes and byte deliveries, run on the real client against an independent reference controller; assumes the controller follows 1756-PM020.")

prop("C06", "A write puts exactly the given values in the named tag and nowhere else",
 "After a write that reports success, the controller's memory holds the given values in exactly the elements or members named, encoded with the tag's own type, and every other byte of every tag is unchanged. A write that cannot be carried out in full returns an error. This holds for single, map, multi and structure writes of every supported type and length.",
 ["inputs", "configurations"],
 "every supported type, value pattern, array length and start, string length around the 82 character limit, map sizes around the message size limits, nested structures",
 "tests compare a few encoded requests; nothing executes the request against a model of controller memory",
 ["write.go", "udt_write.go", "pack.go", "items.go", "ioi.go"],
 [("single and structure write", "write.go"), ("map write", "write.go WriteMap"), ("value serialisation", "items.go, pack.go")],
 observe=["reference controller memory before and after Client.Write/WriteMap/WriteMulti"],
 technique=BEX,
 note='write.go/udt_write.go repaired first; see known_findings.jsonl')

prop("C07", "A multi-tag read pairs every value with its own tag, at any size",
 "ReadMulti, ReadMap and ReadList deliver to each named tag the value the controller holds for that tag, whatever the number, order, types and sizes of the tags. Requests and the replies they ask for are split so that none exceeds the negotiated connection size, and any list of individually readable tags can be read.",
 ["inputs", "configurations"],
 "every tag list up to a length over a set of tag kinds, list lengths through several multiples of the split size, all connection sizes in a range",
 "the split point depends on name lengths, element counts and connection size together; tests use a single fixed small list",
 ["read.go", "partialread.go", "taggroup.go", "taggroup_readmap.go"],
 [("request splitting", "partialread.go countIOIsThatFit, read.go readList"), ("reply offset table", "read.go readList")],
 observe=["values written to the caller's struct, map or slice", "request and reply sizes at the controller"],
 technique=BEX,
 note='Exhaustive over all lists up to the depth and all connection sizes of the range, on the real client against an independent reference controller that judges request sizes and offsets.')

prop("C08", "A tag path addresses exactly the element it names, or is rejected",
 "Every tag name in the documented grammar (programs, members, one to three subscripts, any spacing or letter case) reaches exactly the element it names. A text outside the grammar returns an error or a path that no controller resolves; it never addresses a different element. The result does not depend on what was read before or on whether tags were listed.",
 ["inputs", "histories"],
 "every string of up to n tokens over the grammar's alphabet, plus long names and long paths; each parsed cold, after itself, after a differently cased spelling, and with a controller tag list loaded",
 "tests check about twenty hand-written paths",
 ["ioi.go", "path.go", "listalltags.go"],
 [("tag path parsing", "ioi.go newIOI, parse_tag_name"), ("path cache", "ioi.go"), ("instance addressing", "ioi.go, listalltags.go")],
 observe=["path bytes of the request", "value read through the path"],
 technique=BEX,
 note='Every text up to the token bound is read through the real client and the path the controller receives is decoded by an independent parser; ASCII texts only.')

prop("C09", "Bit access reads exactly the named bit of any integer type",
 "Reading tag.N into a bool yields bit N of the tag's current value for every integer type and every N within the type's width, for scalars, array elements and structure members, alone or in a multi-tag read. A bit number outside the type's width returns an error.",
 ["inputs"],
 "every integer type x every bit 0..70 x walking-bit patterns x every read operation",
 "tests exercise a couple of DINT bits",
 ["ioi.go", "read.go", "types.go"],
 [("bit suffix recognition", "ioi.go"), ("bit extraction", "types.go getBit")],
 observe=["result of Client.Read / ReadMulti / ReadMap / ReadList for tag.N"],
 technique=BEX,
 note='Complete over integer types, bits 0..70, addressing forms and read operations for the listed value patterns.')

prop("C10", "Listings return every tag, program and member exactly once and terminate",
 "ListAllTags, ListAllPrograms, ListSubTags and ListMembers return every entry the controller has (system symbols with a __ prefix and module symbols with a colon in the name are left out by design), each once with its own name, instance, type, dimensions, members and offsets, however the controller pages its replies. They terminate for every finite controller, and an error on any page is reported. Listing everything again after the controller changed leaves exactly what it has now, and a listed tag reads as itself.",
 ["inputs", "configurations"],
 "every page size x every small population of tags, programs and members, sparse and dense instance numbers, system and user tags mixed in every order",
 "needs a controller whose population straddles page boundaries; tests need hardware",
 ["listalltags.go", "listsubtags.go", "listallprograms.go", "listmembers.go", "client.go"],
 [("paging by instance", "listalltags.go, listsubtags.go"), ("template paging", "listmembers.go")],
 observe=["Client.KnownTags, KnownPrograms, KnownTypes; returned slices"],
 technique=BEX,
 note='sequential listing; a listing while the controller changes is not covered')

prop("C11", "A data table buffer returns the current value of exactly its tags",
 "After any sequence of creating, adding tags to, removing tags from, reading and closing data table buffers, each read returns for every tag in the buffer that tag's current value at that tag's place, and for no others. A failed operation leaves the buffer usable and consistent with the controller.",
 ["histories", "fault_sequences"],
 "every operation sequence up to a depth over a set of scalar, array, string and structure tags, with every single refused request",
 "tests cover three literal encodings; histories with removals and failures are not reachable without a controller model",
 ["datatable.go"],
 [("buffer tag bookkeeping", "datatable.go"), ("reply decoding", "datatable.go")],
 observe=["DataTableBuffer read results", "controller-side buffer contents"],
 technique=BEX,
 note='exhaustive histories of buffer operations with one refused request at every place, against a model compared with the controller after each operation')

prop("C12", "A tag group reads, under every substituted name, the tag of that name",
 "ReadTagGroup, and a data table buffer given a group, read for every definition of the group the tag whose name is the template with each {n} replaced by the nth argument, wherever it occurs in the template and only there; the result holds exactly those names, each with that tag's current value in the definition's type and number of elements. The typed accessors return that value or an error, never another value. When a tag is missing or refused the read fails, and using a group changes neither the group nor later reads.",
 ["inputs", "histories"],
 "every template of up to n tokens over placeholders, braces and literals with every argument list; every list of definitions of a group with every arguments over several reads",
 "tests substitute seven templates and never read a group without hardware",
 ["taggroup.go", "taggroup_readmap.go", "datatable.go"],
 [("placeholder substitution", "taggroup.go formatName"), ("array expansion", "taggroup.go expandArrayTag"), ("group read", "taggroup_readmap.go"), ("typed accessors", "taggroup.go TagGroupResult")],
 observe=["TagGroupResult after ReadTagGroup and ReadAllTyped", "tag paths the controller receives"],
 technique=BEX,
 note='exhaustive templates x arguments, types x counts, and definition lists x arguments x refused requests on the real client against the reference controller')

prop("C13", "Keep-alive starts, stops and restarts safely in every order",
 "Any order of starting and cancelling keep-alive, connecting, disconnecting and losing the connection neither panics nor blocks, and at most one keep-alive worker runs per client. After cancelling or disconnecting no further keep-alive poll begins and no connection is opened; a client connected with keep-alive enabled is polled at every interval, and its worker ends when it is stopped. Where polling of tags is on, a change of the polled controller properties, and nothing else, is followed by a new listing of the tags.",
 ["schedules", "histories"],
 "every sequence of lifecycle calls up to a depth and every interleaving with the worker up to a preemption bound",
 "tests do not run the keep-alive worker",
 ["connect.go", "disconnect.go", "client.go"],
 [("keep-alive worker and its cancel channel", "connect.go KeepAlive")],
 observe=["panics", "number of workers", "keep-alive requests on the wire"],
 technique=BEX,
 note='Every history of lifecycle calls with the real keep-alive worker under fake time, and every schedule of concurrent calls around a poll')

prop("C14", "Attribute, identity and service queries return what the device states",
 "GetAttrSingle, GetAttrList and GenericCIPMessage ask for exactly the service, class, instance, attributes, path and data the caller names, over every number and every length the connection carries, and return exactly the bytes of the answer; a request that does not fit or is refused is an error. GetControllerPropList, ListIdentity, ListServices and the canned fault and force queries return every field with the value the device states, and a fault event is described as what its own type and code mean. A force status tells forces that exist from forces that are enabled.",
 ["inputs", "histories"],
 "every class, instance, attribute, length, status and field value, and every order of queries on one client",
 "tests parse two identity replies and one service list, and run no attribute query",
 ["getattr.go", "listidentity.go", "listservices.go", "canned/faults.go", "canned/forces.go", "canned/fault_descriptions.go"],
 [("attribute queries", "getattr.go GetAttrSingle GetAttrList GenericCIPMessage"), ("identity", "listidentity.go ListIdentity"), ("services", "listservices.go ListServices"), ("faults", "canned/faults.go GetFaults FaultEvent.Description")],
 observe=["requests the reference controller receives", "returned values", "errors"],
 technique=BEX,
 note='Every number, length, status and field within the bounds, and every sequence of queries on one client, against the reference controller')

prop("C15", "A client opens the connection it is configured for",
 "Connecting dials the configured address, port and time limit and asks for a point to point connection along the configured route with the configured size, packet interval, vendor and serial number, in the large form when the size needs it and in the standard form when the controller refuses that. The connection is then used with the size that was granted, and disconnecting closes that same connection. A configuration no request can express is an error, and connecting changes neither the route nor what the next connection is asked for.",
 ["inputs", "histories"],
 "every value of each configurable field and every order of configurations on one client",
 "no test connects with anything but the defaults",
 ["connect.go", "disconnect.go", "client.go"],
 [("connecting", "connect.go Connect newForwardOpenLarge newForwardOpenStandard"), ("closing", "disconnect.go disconnect")],
 observe=["dial", "forward open and close requests the reference controller receives", "errors"],
 technique=BEX,
 note='Every value of each field within the bounds and every history of configurations, against the reference controller')

# ---------------------------------------------------------------- codec
prop("P01", "Packing a structure and unpacking it are inverse and match the layout",
 "For every structure type built from supported field kinds, Pack produces the documented controller layout and Unpack restores exactly the packed value, consuming exactly the packed bytes however the reader hands them out. Truncated input yields an error, never a partly wrong success or a panic.",
 ["inputs"],
 "every structure type of up to n fields over an alphabet of field kinds, nested structures and arrays of structures between every pair of neighbours, bool runs of every length to 34; several value patterns; every reader chunk size and truncation",
 "tests pack a dozen fixed structures",
 ["pack.go", "types.go"],
 [("packing", "pack.go Pack"), ("unpacking", "pack.go Unpack")],
 observe=["bytes of Pack, value of Unpack"],
 technique=BEX,
 note="Exhaustive over all structure types within the field bound; the layout oracle is an independent implementation of the documented alignment rules.")

prop("P02", "Every path segment and route encodes to the CIP bytes it denotes",
 "Class, instance, attribute, element, symbol, port and address values of every magnitude encode to the segment form the CIP specification gives them, report the length they encode to, and concatenate into the same path whichever helper builds it. Route text is either parsed to the hops it names or rejected.",
 ["inputs"],
 "all 16-bit values, all 32-bit boundaries, all symbol lengths, all builder call sequences to a depth, all route texts of up to n tokens",
 "tests check about thirty values; the form changes at 8, 16 and 32 bit boundaries and at odd lengths",
 ["path.go", "ioi.go", "cip_definitions.go"],
 [("segment encoders", "path.go"), ("route parsing", "path.go ParsePath")],
 observe=["encoded bytes and reported lengths"],
 technique=BEX,
 note="All values below the stated limits are enumerated, not sampled; the oracle is an independent decoder of the CIP segment grammar.")

prop("P03", "The predefined Logix types pack to and from their documented words",
 "TIMER, COUNTER, CONTROL and STRING values pack into the documented bytes with every status bit in its place and unpack to the same value, alone and inside user structures. Truncated input yields an error.",
 ["inputs"],
 "every combination of status bits x boundary presets and accumulators, every string length",
 "tests cover single instances on hardware",
 ["lgxtypes/timer.go", "lgxtypes/counter.go", "lgxtypes/control.go", "lgxtypes/string.go"],
 [("Pack/Unpack methods", "lgxtypes")],
 observe=["packed bytes and unpacked values"],
 technique=BEX,
 note="Complete over the status bits and string lengths.")

prop("P04", "A packet item buffer behaves as a byte queue with a truthful length",
 "Any sequence of writes, typed reads, seeks and resets on a packet item delivers the written bytes in order, fails when fewer bytes remain than asked for, and frames exactly its contents with the right length. Values of every supported type serialise to the same bytes whichever call is used.",
 ["inputs", "histories"],
 "every sequence of operations up to a depth over 20 operations",
 "tests serialise nine literals",
 ["items.go"],
 [("item buffer", "items.go")],
 observe=["bytes read, framed item"],
 technique="explicit-state exploration of operation sequences on the real buffer against a byte queue model",
 note="Every operation sequence up to the depth is executed on the real buffer and on the model.")

# ---------------------------------------------------------------- server
prop("S01", "A value written to the server is the value read back",
 "For every tag type, length and addressing form, a client that writes a value to a tag of the server's map provider through one service, connection or session and reads it back through another obtains exactly the written value, and values of other tags and elements are unaffected. A value that the element of an array can not represent, and an element or range that does not exist, is refused without any change. Values set in the tag provider by the application are what clients read.",
 ["inputs", "histories"],
 "every sequence of writes and reads up to a depth over all types, lengths (including those whose count bytes look like path segments), indexes and the services read, fragmented read, write, multi-service, unconnected send and attribute access",
 "tests encode single string values",
 ["server_connected.go", "server_unconnected.go", "server_router.go", "server.go"],
 [("connected services", "server_connected.go"), ("unconnected services", "server_unconnected.go"), ("map tag provider", "server_router.go")],
 observe=["Client.Read results against the server", "MapTagProvider contents"],
 technique=BEX,
 note='Every history of writes by ten ways, followed by reads in every way, against a model of the tag values')

prop("S02", "The server answers every request once, correctly addressed, in sync",
 "Every complete request a peer sends gets exactly one reply that echoes its session, sender context, connection and sequence and carries the service's reply code and a status. A request the server does not support or must refuse is answered with an error status and the session stays usable, however requests are split or merged in the TCP stream.",
 ["inputs", "histories"],
 "every sequence of request kinds (supported, refused, unknown command, unknown service) up to a depth, with every split of the stream",
 "tests check the fields of two reply builders",
 ["server.go", "server_connected.go", "server_unconnected.go"],
 [("frame loop", "server.go"), ("service dispatch", "server_connected.go, server_unconnected.go")],
 observe=["frames on the wire"],
 technique=BEX,
 note='Every pair (quick) or triple (thorough) of requests of a catalogue of every service, refusal and encapsulation command, and every split of the stream, against the real server')

prop("S03", "No input from the network crashes the server or a healthy session",
 "Whatever bytes one peer sends on TCP or UDP, the server process does not panic, does not stop serving other sessions, and does not allocate out of proportion to the bytes received.",
 ["inputs"],
 "every truncation, length/count/type boundary and single-byte corruption of every request kind, in and out of session order",
 "tests send only well-formed packets",
 ["server.go", "server_connected.go", "server_unconnected.go", "server_io.go", "server_connections.go", "items.go", "server_listidentity.go"],
 [("request parsing", "server*.go"), ("item parsing", "items.go")],
 observe=["panics", "service to a second session", "allocations"],
 technique=BEX,
 note='Every truncation, extension, single-byte and field corruption of every catalogue request, in every session state, against the real server with a healthy session beside it')

prop("S04", "Connections and routes are isolated from one another",
 "Each request reaches only the tag provider its route selects, and each reply only the session and connection that asked. Closing, breaking or re-opening one connection never affects another peer's connection, even when originators choose the same identifiers or serial numbers.",
 ["histories", "inputs"],
 "every sequence of open/use/close/drop by up to three originators with equal and different serials and identifiers, over every pair of registered routes",
 "tests open one connection",
 ["server_connections.go", "server_router.go", "server.go", "server_unconnected.go"],
 [("connection table", "server_connections.go"), ("route lookup", "server_router.go")],
 observe=["replies per session, provider contents"],
 technique=BEX,
 note='Every history of up to three originators, with all connections probed from all sessions after every action')

prop("S05", "Concurrent tag accesses are linearizable and untorn",
 "Reads and writes of the map tag provider by any number of sessions and by the application behave as if executed one at a time in some order consistent with their real-time order. A multi-element read never mixes elements of two writes, and values handed out or taken in never alias live data.",
 ["schedules"],
 "every interleaving up to a preemption bound of two or three operations on one provider, checked against every sequential order",
 "a torn read needs a specific interleaving of a copy with a write; tests are sequential",
 ["server_router.go", "server_connected.go", "server_unconnected.go"],
 [("provider lock", "server_router.go MapTagProvider")],
 observe=["results of concurrent TagRead/TagWrite"],
 technique='stateless model checking of the real code under a controlled scheduler, linearizability against every sequential order, happens-before race monitor',
 note='every schedule of 2 (3) operations up to a preemption bound, by the application and by sessions of the real server; the race detector sees only the order the locks give')

prop("S06", "Class 1 I/O exchanges deliver whole, current assemblies",
 "Each I/O packet the server produces carries the complete current input assembly with increasing sequence counts, and each consumed packet updates the output assembly in full or not at all. Closing or losing an I/O connection stops its traffic and leaves other connections running.",
 ["histories", "schedules"],
 "every sequence of forward open, I/O packets of every length, ticks, close and drop up to a depth",
 "tests do not run class 1 I/O",
 ["server_io.go", "server_iochannel.go", "server.go", "server_unconnected.go"],
 [("I/O producer", "server_io.go"), ("channel provider", "server_iochannel.go")],
 observe=["UDP packets, provider In/Out values"],
 technique='stateless model checking of the real server under a controlled scheduler with simulated time, happens-before race monitor',
 note='every history of opens, packets, closes and session losses up to a depth, packet lengths, intervals, a wrap of the sequence count, and every schedule of ticks, packets, closes and the application up to a preemption bound, with the race monitor')

prop("S07", "The server describes itself identically however it is asked",
 "The identity a server is configured with is what ListIdentity and identity attribute reads (all, single, connected or not) report, field for field, for every configurable value.",
 ["inputs", "configurations"],
 "every boundary value of every identity attribute and every product name length, through every query form",
 "tests check one configuration of one query form",
 ["server_listidentity.go", "server_unconnected.go", "server_connected.go", "server.go"],
 [("attribute table", "server.go"), ("identity replies", "server_listidentity.go, server_unconnected.go")],
 observe=["Client.ListIdentity, GetAttrSingle, GetAttrList against the server"],
 technique=BEX,
 note='every form of identity query, boundary values, every 16 bit value')

prop("S08", "Everything the server lists can be read as listed",
 "The tag list a client obtains from the server names each tag of the provider once, with the type and dimensions of the value that reading it returns (strings with the code the server uses for them), and addressing a listed tag by its instance number reaches that same tag.",
 ["inputs", "configurations"],
 "every provider population up to a size over all tag types and lengths",
 "tests do not list a server's tags",
 ["server_connected.go", "server_router.go"],
 [("symbol list", "server_connected.go connectedSymbolList")],
 observe=["Client.ListAllTags against the server and reads of the listed tags"],
 technique=BEX,
 note='every population up to 2 (3) tags, every listing, instance addressing')

prop("S09", "Serve returns once the server is closed and frees what it held",
 "When a listening socket of the server cannot be opened, fails for good or is closed, Serve returns an error in bounded time with both of its sockets closed; a problem that may go away neither ends it nor makes it spin. A peer that leaves, in whatever way and at whatever point of any exchange, releases everything the server kept for its session (the TCP connection, its CIP connections, their sockets and goroutines), and other sessions go on.",
 ["fault_sequences", "histories"],
 "every point at which the listener, the UDP socket or a session can fail during a session script",
 "tests never stop a server",
 ["server.go", "server_connections.go", "server_io.go"],
 [("accept and packet loops", "server.go"), ("connection table", "server_connections.go")],
 observe=["return of Serve, goroutines and connections left"],
 technique='stateless model checking of the real server under a controlled scheduler with simulated time and network faults, happens-before race monitor',
 note='every failure of the listening sockets, every byte of a session at which its peer can leave in six ways, and every schedule of a leaving peer, closing sockets, and the server up to a preemption bound')

prop("S10", "A tag provider is asked for exactly what the client named",
 "For every read or write a peer makes, in any service and packing, the provider at the addressed route and no other is called exactly once, with the tag (names, members and subscripts), element count and values of the request; the peer gets exactly the provider's answer, whatever its type and length. A request that names nothing, or whose count or data is not valid, is refused without a call, and a provider's error, whichever it is, becomes an error reply that leaves every session usable.",
 ["inputs", "histories"],
 "every tag path over names and subscripts of every encoding, every element count, type, value pattern and error, by every service and packing",
 "tests only use the map provider, with a handful of tags",
 ["server_connected.go", "server_unconnected.go", "server_router.go", "ioi.go"],
 [("tag of a request path", "ioi.go getRequestTag"), ("reads and writes of a provider", "server_connected.go readTag, writeTag, encodeTag, parseWriteValues")],
 observe=["calls of a recording provider, replies seen by a raw peer"],
 technique=BEX,
 note='every path of up to 2 (3) names with up to 3 subscripts, every element count, type, pattern, list length and error, by 11 services and packings, on two routes with recording providers')

# ---------------------------------------------------------------- l5x
prop("L01", "L5X data values convert exactly or not at all",
 "Loading the tags of an exported project yields, for every tag, member and array element, the value the file states, for every atomic data type, number radix and string escape. A value that does not fit its type or cannot be parsed is reported as an error instead of being replaced.",
 ["inputs"],
 "every numeric type x radix x boundary value x malformed text, in scalars, members, nested structures and arrays of every dimension count, in the controller and in any program, and every string with characters that need an escape",
 "the test loads one exported file and looks at no value",
 ["l5x/types.go", "l5x/load_tags.go"],
 [("value conversion", "l5x/types.go"), ("walk over tags, structures and arrays", "l5x/load_tags.go")],
 observe=["values returned by the l5x loader"],
 technique=BEX,
 note='projects written by the check from chosen values; every text in every place, every string and every project shape within the bounds, loaded by the real loader')
