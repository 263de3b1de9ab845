"""The properties: source of properties.jsonl and of the MANIFEST entries."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None, root="go/"):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": [root + f for f in files], "mechanism": [{"name": n, "where": root + w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = state
    P.append(d)


prop("P01", "Frames survive encoding and decoding and follow the RSocket wire layout",
     "Every request, payload, request-n, cancel and error frame encodes to exactly the bytes the RSocket layout prescribes (31 bit stream id, type, flags, counts and 24 bit metadata length in network byte order), its announced size is exactly the number of bytes written, and decoding returns the same stream id, type, flags, counts, metadata and data.",
     ["inputs"], "all frame types, stream ids, flag combinations, counts, metadata and data sizes up to the field limits, including legal encodings other implementations produce",
     "The existing tests never encode a frame; field packing errors show only for particular ids, flags and sizes.",
     ["internal/frames/frame_header.go", "internal/frames/payload.go", "internal/frames/request_payload.go", "internal/frames/error.go", "internal/frames/request_n.go", "internal/frames/cancel.go"],
     [("frame encode/decode/size", "internal/frames"), ("header packing", "internal/frames/frame_header.go")], ["encoded bytes", "decoded frame fields"])

prop("P02", "Fragmenting a frame loses, repeats and exceeds nothing",
     "Splitting a request or payload frame for a maximum frame size yields fragments that each fit the limit, whose metadata and data concatenate to exactly the original's, and of which the first keeps the request's kind and initial demand. On the wire every fragment but the last is marked as followed by more, and only the last carries the end-of-payload flags.",
     ["inputs"], "all fragmentable frames and all limits from the smallest usable one upward, in particular limits near the frame's own size",
     "The two unit tests use a single size; the split has boundary cases in metadata, data and header space.",
     ["internal/frames/util.go", "internal/frames/payload.go", "internal/frames/request_payload.go"],
     [("Fragment, splitPayloads", "internal/frames/util.go")], ["fragments as encoded on the wire"])

prop("P03", "Malformed frame bytes are refused, never misread and never fatal",
     "Decoding arbitrary bytes as a frame either returns exactly the frame those bytes denote or an error; a frame cut short, or one whose declared lengths exceed the bytes present, is refused, and no input makes the process panic.",
     ["inputs"], "all byte strings with a frame header, including every truncation and mutation of valid frames",
     "Only hostile inputs show it; the tests feed none.",
     ["internal/frames/payload.go", "internal/frames/request_payload.go", "internal/frames/error.go", "internal/frames/request_n.go"],
     [("Decode bounds", "internal/frames")], ["decode result or error"])

prop("P04", "A byte-stream connection carries every frame once, in order and intact",
     "Frames sent over a connection reach the receiving side's handler complete, in sending order, exactly once and unmodified, however the byte stream is chopped up, however many goroutines send at the same time, and however many frames are read afterwards; sending concurrently is free of data races. A stream ending inside a frame, an impossible length, an unknown or a truncated frame ends in an error, never in an invented frame or a crash, and a frame too large for the 24 bit length is refused without putting bytes on the wire.",
     ["inputs", "schedules", "fault_sequences"], "all frame sequences, chunkings, cut points, malformed prefixes and interleavings of concurrent senders",
     "Depends on read chunking, buffer reuse and goroutine interleaving that unit tests do not vary (the transport has no tests).",
     ["transport/rsocket/decoder.go", "transport/rsocket/tcp_conn.go", "transport/rsocket/transport.go", "internal/u24/u24.go"],
     [("length based framing", "transport/rsocket/decoder.go"), ("send path", "transport/rsocket/transport.go"), ("24 bit length", "internal/u24/u24.go")],
     ["bytes on the connection", "frames handed to the handler"])

prop("P05", "What the MessagePack writer writes, the reader reads back equal",
     "For every sequence of typed writer calls (integers of all widths, floats, booleans, strings, byte arrays, timestamps, nil, their nillable forms, array and map sizes), the sizer announces exactly the number of bytes the encoder writes, and the matching reader calls return the same values, nil where nil was written, and consume exactly those bytes. Writing into a buffer that is too short, or reading past the end or from a truncated encoding, is reported as an error; nothing outside the buffer is touched.",
     ["inputs"], "all sequences of typed calls and all values, in particular around the limits of every integer and length class",
     "The tests sweep a few integer ranges and one struct; lengths near the class limits, timestamps, nil and short buffers are not among them.",
     ["msgpack/encoder.go", "msgpack/sizer.go", "msgpack/decoder.go", "msgpack/data_reader.go", "msgpack/codec.go"],
     [("typed writes", "msgpack/encoder.go"), ("sizes", "msgpack/sizer.go"), ("typed reads", "msgpack/decoder.go"), ("bounds", "msgpack/data_reader.go")],
     ["bytes written", "values and errors returned by the reader", "Err()"])

prop("P06", "The encoding is MessagePack as other implementations understand it",
     "The bytes of every writer call are the MessagePack encoding of that value, in the shortest form of its family (signed or unsigned integers, strings, binaries, arrays, maps, timestamps). The reader accepts every form the specification allows for a value, so that an integer is read wherever it fits the requested type however it was encoded, floats likewise, and it refuses integers that do not fit instead of wrapping them. It also reads what other implementations put in the place of a value: nil for an empty byte array, array or map, and timestamps as an extension of type 13 or as RFC 3339 text.",
     ["inputs"], "all values and all valid encodings of them, including those this encoder never produces",
     "The tests only read what the same code wrote, so both sides may agree on a mistake.",
     ["msgpack/encoder.go", "msgpack/decoder.go", "msgpack/format.go"],
     [("format selection", "msgpack/encoder.go"), ("format dispatch", "msgpack/decoder.go")], ["bytes written", "values and errors returned by the reader"])

prop("P07", "Hostile MessagePack bytes are refused within bounds",
     "Reading arbitrary bytes with any reader method ends in a value that those bytes denote or in an error: no panic, no exhausted stack and no allocation out of proportion to the input, whatever lengths the bytes announce and however deeply they nest. Bytes that are not MessagePack, or are cut short, are not accepted by dynamic reading and skipping.",
     ["inputs"], "all byte strings, in particular lying lengths, truncations, deep nesting and unusual map keys",
     "Payloads come from the other side of a connection; no test feeds malformed ones.",
     ["msgpack/decoder.go", "msgpack/data_reader.go"],
     [("ReadAny", "msgpack/decoder.go"), ("Skip", "msgpack/decoder.go"), ("checkBufferSize", "msgpack/data_reader.go")], ["values, errors and panics of the reader", "bytes allocated"])

prop("P08", "Dynamic MessagePack values survive, and skipping steps over exactly one",
     "WriteAny writes every supported Go value (scalars, times, slices, maps, nested and nil ones, codecs) once and as the MessagePack value it denotes, sizer and encoder agreeing, and ReadAny returns an equal value. A value without an encoding, or a codec that fails, is reported as an error and not left out. ReadAny and Skip consume exactly one value in any valid encoding, including extensions, so that the next value is found.",
     ["inputs"], "all supported dynamic values and nestings, and all valid encodings of them",
     "WriteAny, ReadAny and Skip have no tests; each has dozens of type and format cases in two places that must agree.",
     ["msgpack/encoder.go", "msgpack/sizer.go", "msgpack/decoder.go", "msgpack/codec.go"],
     [("WriteAny", "msgpack/encoder.go"), ("Sizer.WriteAny", "msgpack/sizer.go"), ("ReadAny, Skip", "msgpack/decoder.go")], ["bytes written", "values read", "errors"])

prop("P09", "Payload transforms and conversions keep the value or report an error",
     "Encoding a value with any payload transform (numbers, strings, bytes, booleans, times, enumerations, codecs, slices of codecs, interface handles) and decoding the payload yields an equal value; a truncated or foreign payload, or a codec that fails while encoding or decoding, yields an error instead of a wrong or partial value. The conversion helpers keep values, pass nil on as nil and return the error of the read they wrap.",
     ["inputs"], "all transforms, values, truncated and hostile payloads and failing codecs",
     "There are no tests of the transforms or conversions.",
     ["transform/transform.go", "msgpack/convert/convert.go"],
     [("transforms", "transform/transform.go"), ("conversions", "msgpack/convert/convert.go")], ["decoded values", "errors"])

prop("P12", "Stream ids are unique, of the right parity and never zero",
     "Each side draws its stream ids consecutively from its own half of the 31 bit space: odd from 1 for clients and guests, even from 2 for servers and hosts, never 0, and without repeating one before the space is used up, no matter how many goroutines draw at the same time. Every request a caller makes goes out on such a fresh id.",
     ["schedules", "histories"], "all numbers of draws, concurrent callers and counter positions including the end of the id space",
     "Needs concurrency and counters near the wrap-around; the tests draw three ids.",
     ["internal/socket/stream_id.go", "handler/handler.go", "handler/caller.go"],
     [("ClientStreamIDs/ServerStreamIDs", "internal/socket/stream_id.go"), ("getNextStreamID", "handler/caller.go")], ["ids returned", "stream ids of request frames"])

prop("P13", "The receive queue loses, repeats and reorders nothing and always ends",
     "Every item the unbounded queue accepts is delivered to its reader exactly once and in acceptance order per producer; once disposed the queue accepts nothing more, hands out what it had accepted and then ends, so a reader never waits for ever. Concurrent use is free of data races.",
     ["schedules", "histories"], "all interleavings of producers, one reader that follows the read-then-load protocol, and disposal",
     "The outcome depends on the interleaving of put, load and dispose.",
     ["internal/buffer/unbounded.go"], [("Put/Load/Get/Dispose", "internal/buffer/unbounded.go")], ["items read", "end of the channel"])

prop("P14", "The table of open streams finds exactly the registered streams",
     "A stream is found under its id from its registration until its removal and never afterwards, whatever the order of registrations and removals of other streams, and lookups concurrent with changes return a state that existed during the call, without data races.",
     ["histories", "schedules"], "all sequences and interleavings of add, remove and lookup",
     "Errors appear only for particular positions (first, last, only entry) or interleavings; the table has no tests.",
     ["proxy/lookup.go"], [("linked list under a mutex", "proxy/lookup.go")], ["lookup results"])

prop("P15", "A mono delivers one outcome exactly once to everyone who asked",
     "However many goroutines signal a mono, with success or with errors, before, during or after its subscription, exactly one outcome wins; the subscriber gets that outcome once, the matching Finally signal once, and nothing else; every notification registered at any time is called once with that signal; blocking and async waiting return it. A map passes the value through its conversion and turns a failed conversion into an error. All of it is free of data races.",
     ["schedules", "inputs", "histories"], "all orders and interleavings of signals, subscription, notification and waiting, all outcomes, map chains",
     "The outcome depends on which signal wins and on registration relative to it; the rx packages have no tests.",
     ["rx/mono/mono.go", "rx/mono/processor.go", "rx/mono/mono_host.go", "rx/rx.go"],
     [("subscriber state and notifications", "rx/mono")], ["OnSuccess/OnError/Finally callbacks", "Notify callbacks", "Block results"])

prop("P16", "A flux delivers its values in order and ends exactly once, within demand",
     "A subscriber of a flux, slice, processor or mapped flux gets the emitted values in order and each once, then exactly one of completion, error or cancellation with the matching Finally and notification signals, and nothing after it. Demand reaches the producer as requested, automatic and batched demand asks for neither more nor less than stated, a slice emits only what is requested, cancelling reaches the producer once, and a failed conversion ends a mapped flux. All of it is free of data races.",
     ["schedules", "inputs", "histories"], "all value sequences, demand patterns, terminal and superfluous signals, cancellation points and interleavings",
     "Termination and demand races depend on the interleaving; the rx packages have no tests.",
     ["rx/flux/flux.go", "rx/flux/processor.go", "rx/flux/slice.go", "rx/flux/response.go", "rx/rx.go"],
     [("subscriber state, demand, notifications", "rx/flux")], ["OnNext/OnComplete/OnError/Finally callbacks", "Request and Cancel reaching the producer"])

prop("P17", "A flow runs each step once, in order, after everything it awaits",
     "A flow of steps runs each step exactly once, in order, and only after all awaitables of the step before have ended, whether these were complete already, complete concurrently or in any order; an awaitable that fails has ended too and hands its error to whoever asks for its value. The first failing step ends the flow with that error, a step that ends the flow is the last one, and no later step runs; the flow's own outcome is delivered once.",
     ["schedules", "histories"], "all step counts, groups of awaitables and completion orders, with errors at any place",
     "Awaitables completing at the same time as they are awaited decide it; flows have no tests.",
     ["rx/flow/flow.go", "rx/await/await.go"], [("step loop", "rx/flow/flow.go"), ("All", "rx/await")], ["order of step executions", "outcome of the flow"])

E2E = ["handler/handler.go", "handler/caller.go", "proxy/responder.go", "proxy/flux.go", "proxy/mono.go", "transport/rsocket/transport.go"]

prop("P18", "A request-response call yields exactly its own response",
     "Each request-response call, however many others are in progress in either direction, invokes the operation it names on the other side exactly once with exactly the payload sent, and its caller gets exactly the payload that operation answered, once, followed by the final signal; answers are never mixed up between calls. On the wire one response frame marked next and complete answers each request.",
     ["schedules", "inputs", "histories"], "all numbers and interleavings of concurrent calls from both sides, payloads, latencies and read chunkings",
     "Cross-talk needs many concurrent calls; handler and proxy have no tests.",
     E2E, [("stream registration and dispatch", "handler/handler.go"), ("streamMono", "proxy/mono.go")], ["operation invocations", "subscriber callbacks", "frames on the wire"])

prop("P19", "A stream delivers the producer's payloads to its caller, in order and whole",
     "The caller of a request-stream gets exactly the payloads the operation emits, in emission order and unmodified, and then the operation's completion or error, exactly once; nothing is lost when the response starts before, while or after demand arrives, and nothing arrives after the end. On the wire there are never more payloads than requested and nothing follows the terminal frame.",
     ["schedules", "inputs", "histories"], "all payload sequences, demand patterns, producer timings and concurrent requests",
     "Early demand, early completion and concurrent streams are timing dependent; handler and proxy have no tests.",
     E2E, [("handleRequestStream/respond", "handler/handler.go"), ("streamFlux", "proxy/flux.go")], ["subscriber callbacks", "frames on the wire"])

prop("P20", "A channel carries both directions independently, in order and to the end",
     "On a request-channel the operation gets exactly the requester's payloads and the requester exactly the operation's, each in order and followed by that direction's own completion or error, once; either direction may end first without harming the other, the operation may cancel, ignore or subscribe late to its input, and an input is reported complete only when all of it has been delivered.",
     ["schedules", "inputs", "histories"], "all payload sequences in both directions, demand, end and cancellation orders",
     "Half-closed states and late subscriptions are timing dependent; handler and proxy have no tests.",
     E2E, [("handleRequestChannel", "handler/handler.go"), ("Responder", "proxy/responder.go"), ("streamFlux input", "proxy/flux.go")], ["callbacks on both sides", "frames on the wire"])

prop("P21", "Fire-and-forget requests run once and are never answered",
     "Each fire-and-forget request for a known operation invokes it exactly once with the payload sent; no frame of any kind ever answers one, even if the operation is unknown or the metadata is too short, and other requests are unaffected, even while its operation blocks.",
     ["schedules", "inputs"], "all numbers of concurrent requests from both sides, valid and invalid",
     "Nothing comes back to a test that could check it; it needs the wire and the invocations observed together.",
     E2E, [("handleFireAndForget", "handler/handler.go")], ["operation invocations", "frames on the wire"])

prop("P22", "Errors reach the caller as errors, with their text, once",
     "A failing operation ends its caller's request with an error of the same text after exactly the payloads it emitted before; a request for an operation that does not exist ends with not_found and one with too short metadata with Invalid metadata, for every interaction kind, without invoking anything; each such call ends exactly once and leaves other requests alone.",
     ["inputs", "schedules"], "all interaction kinds, failure points, error texts, operation ids and metadata lengths",
     "Error paths per interaction kind are not covered by any test.",
     E2E, [("OnError paths, checkMetadata", "handler/handler.go")], ["OnError callbacks", "operation invocations"])

prop("P23", "Cancelling a call stops its producer and nothing else",
     "When a caller cancels a stream or channel, at any moment, it sees the cancellation once and then nothing more, the operation's producer is told so exactly once if it is still producing, the input the caller was sending is cancelled as well and the operation sees its input end, not complete; an operation cancelling its input stops the requester's input only. All other requests go on undisturbed.",
     ["schedules", "histories"], "all cancellation moments relative to the request, its set-up, its payloads and its end",
     "The interesting moments are races between cancellation and set-up, delivery or completion.",
     E2E, [("OnCancel", "proxy/responder.go"), ("Cancel", "proxy/flux.go")], ["Cancel reaching producers", "callbacks after cancellation"])

prop("P24", "Demand crosses the connection: nobody is asked for or sent more than requested",
     "What a subscriber of a remote stream or channel requests, in whatever portions and however early, arrives at the remote producer as the same total, never more; producers honouring it put no more payloads on the wire than requested, in both directions of a channel; a caller whose demand is used up gets nothing further, yet gets everything as soon as it is covered; and batched subscribers keep at most one batch outstanding.",
     ["schedules", "inputs", "histories"], "all demand sequences and batch sizes, before and after the operation is set up, both directions",
     "Demand arriving before the operation has answered, or both at once, is timing dependent.",
     E2E, [("DoRequest before Attach", "proxy/responder.go"), ("InitialN, Request", "proxy/flux.go")], ["Request reaching producers", "request-n and payload frames on the wire"])

prop("P25", "No peer behaviour crashes a side or disturbs its other streams",
     "Whatever well-formed frames a peer sends, on streams that are unknown, ended, of another kind or in another state, in whatever order, the receiving side neither crashes nor closes the connection; each of its calls sees exactly what the frames on its own stream mean up to the first final one, each served request gets exactly its answer within the demand given, and nothing is sent on a stream after its final frame. Malformed bytes end the connection and with it all calls, with errors, once.",
     ["inputs", "fault_sequences", "schedules"], "all frame sequences of a hostile peer on any streams, malformed bytes at the end",
     "Requires frames no cooperating implementation sends.",
     E2E + ["transport/rsocket/tcp_conn.go"], [("HandleFrame", "handler/handler.go")], ["frames sent", "subscriber callbacks", "result of Start"])

prop("P26", "A lost connection ends every call and stops every producer",
     "When a connection breaks at any byte, is closed, or its context is cancelled, Start returns on both sides and every call in progress ends exactly once: with what it had already been given completely, otherwise with an error after a prefix of its payloads, never with a false completion. Producers and inputs still running for the other side are cancelled once, an interrupted input is not reported complete, and requests made afterwards fail at once.",
     ["fault_sequences", "schedules"], "all break points in the byte stream of either direction, closing and cancellation moments, and requests in progress",
     "Needs faults injected at arbitrary points while requests are in progress.",
     E2E, [("Start", "transport/rsocket/transport.go"), ("Close", "handler/handler.go")], ["subscriber callbacks", "Cancel reaching producers", "result of Start"])

prop("P27", "A server serves until it is closed and then lets go of everything",
     "A server tells its notifier once whether it listens, hands every accepted connection to its acceptor once and serves requests in both directions on it until Close, its context's end or a failing listener; then Listen returns, with the listener's error if that was the reason, the listener and all connections are closed and their calls end. Connections that have ended are not kept, and a server closed before it listens does not serve.",
     ["histories", "schedules", "fault_sequences"], "all sequences of connecting, requesting, leaving, closing, cancelling and listener failures",
     "Depends on the order of accepting, listening and closing; the server has no tests.",
     ["transport/rsocket/tcp_transport.go", "transport/rsocket/transport.go"],
     [("Listen/Close", "transport/rsocket/tcp_transport.go")], ["result of Listen", "notifier", "closed connections", "reachability of ended connections"])

WR = ["transport/wasmrs/host/instance.go", "transport/wasmrs/host/caller.go", "transport/wasmrs/host/host.go", "transport/wasmrs/guest/guest.go", "transport/wasmrs/guest/caller.go", "proxy/flux.go", "proxy/mono.go", "proxy/responder.go", "proxy/lookup.go"]
WH = "the guest's host calls and its inline handling of demand are observable natively under the build tag verif"
prop("P30", "A host and its WebAssembly guest exchange requests of all kinds faithfully",
     "Between a host and its guest, in both directions, every request invokes the operation it names exactly once with the data and metadata sent; responses, stream items, channel input, completions, errors and their texts arrive unchanged, complete and in order, each call ends exactly once; unknown operations and short metadata end in an error; cancellation reaches the producer, no more is sent than was asked for, and fire-and-forget requests are never answered. This holds however frames are batched into buffers and however many a guest sends within a call. The host lists exactly the operations of the guest, an operation of the host invoked on behalf of a host's request gets that request's context, and ended streams leave nothing behind on either side.",
     ["inputs", "schedules", "histories"], "all mixes of concurrent requests from both sides with payloads up to the size of the buffers, all interleavings of the host's goroutines with the guest's calls, and all orders in which the guest does its pending work",
     "There are no tests of either side; mistakes show only with several streams in a batch, with reuse of buffers, or when frames of a stream arrive in unlucky moments.",
     WR, [("sendLoop, recvOne", "transport/wasmrs/host/instance.go"), ("GuestSend", "transport/wasmrs/guest/guest.go"), ("streams", "proxy")],
     ["operations invoked and what they get", "callbacks of callers", "frames handed over in both directions", "reachability after garbage collection"], hook=WH)

prop("P31", "Hosts and guests survive hostile frames, traps, closing and too large payloads",
     "Frames that are well-formed but out of place (for unknown or ended streams, of the wrong kind, superfluous) change nothing for other streams, on the host and on the guest. Requests that cannot be decoded or are fragmented are answered with one error and invoke nothing. A guest that hands over bytes which are no frames has its call ended with an error, bytes which are no frames are ignored by the guest, and neither crashes the other side. When a guest traps, or the instance is closed, every open call of the host ends with an error exactly once and every producer and input of the host is told; calls made after closing end with an error. A request, response or input whose payload does not fit into the buffers ends with an error for the requester or the operation, never with a loss or a crash. Modules that do not announce valid operations are refused.",
     ["inputs", "fault_sequences", "histories", "schedules"], "all sequences of frames from a scripted guest or host, malformed batches and lengths, traps in any call, closing at any moment, payloads around and far above the buffers' size",
     "There are no tests; needs hostile peers and faults at arbitrary points.",
     WR, [("hostSend, sendLoop, Close", "transport/wasmrs/host/instance.go"), ("GuestSend, doSendFrame", "transport/wasmrs/guest/guest.go")],
     ["final callbacks of all calls and producers", "frames sent in answer", "the results of guest calls", "NewInstance's result"], hook=WH)

prop("P32", "A mesh routes every call to the current exporter of the operation",
     "Modules can be loaded into a mesh in any order and again. A call, from outside or from a module through an import, at any depth, reaches the operation with the namespace, name and kind asked for in the module that was the last to be loaded with it, under that module's index, with the data and further metadata of the call and without changing the caller's metadata; responses, items and channel input flow through the chain unchanged. Operations nobody exports end in an error (fire and forget: in nothing), imports work once an exporter is loaded. Modules that cannot be loaded change nothing. While a module is replaced, concurrent calls are served by the old or the new version, later ones by the new; requests in progress may finish and are ended later, as all are when the mesh is closed.",
     ["histories", "inputs", "schedules"], "all sequences of loading, replacing and failing to load modules with any tables of operations, with calls of all kinds in between and at the same time",
     "There are no tests; order of loading, replacement under load and equal names of different kinds are what matters.",
     ["transport/wasmrs/mesh/mesh.go", "transport/wasmrs/host/host.go", "transport/wasmrs/host/instance.go"], [("linkOperations, LoadModule", "transport/wasmrs/mesh/mesh.go"), ("Instantiate, host functions", "transport/wasmrs/host/host.go")],
     ["which module and index answered, with what metadata", "callbacks of callers", "fire and forget requests recorded by the modules"])

prop("P35", "Requests that have ended leave nothing behind on a living connection",
     "Once both directions of a request have ended, by completion, error, refusal or cancellation from either side, the connection holds no reference to it and no goroutine works for it, so a connection can serve any number of requests in constant space.",
     ["histories", "schedules"], "all ways for requests of all kinds to end, on both sides",
     "A leak has no functional symptom; it needs reachability and goroutines observed after each kind of end.",
     E2E + ["proxy/lookup.go"], [("removeStream, endInbound, endOutbound", "handler/handler.go")], ["reachability after garbage collection", "goroutine count"])

prop("P10", "Operation tables survive encoding and hostile tables are refused",
     "The operation table a module announces is encoded in the published binary layout and read back as exactly the same operations (kind, direction, index, namespace, name) in the same order; reserved bytes are skipped, and the table read does not depend on the buffer afterwards. Bytes that are not a table, cut short or announcing more than they hold, end in an error, without a panic and without allocations out of proportion to them.",
     ["inputs"], "all tables with names up to 65535 bytes, all reserved bytes, and arbitrary byte strings including every truncation and mutation of tables",
     "There are no tests; limits of the 16 bit lengths and hostile tables of guest modules are not ordinary inputs.",
     ["operations/operatons.go"], [("ToBytes, FromBytes", "operations/operatons.go")], ["bytes written", "table or error read", "allocated bytes"])

prop("P11", "Exported operations are found under their index, imports are numbered once",
     "The n-th operation exported of a kind is the one found under index n of that kind, no index beyond the exported ones finds anything, importing the same namespace and name of a kind again returns the same index while different ones get the next index, and the listed operations are exactly those registered, in order. A guest announces each of them to its host once, with its kind, direction, index, namespace and name.",
     ["inputs", "histories"], "all sequences of exports, imports, lookups and listings of all four kinds, with related, equal and empty names",
     "There are no tests; confusions between kinds, names or indices need particular sequences.",
     ["invoke/handlers.go", "transport/wasmrs/guest/guest.go"], [("registry", "invoke/handlers.go"), ("OperationList, convertOperations", "transport/wasmrs/guest/guest.go")], ["indices returned", "handler found for an index", "GetOperations", "list announced to the host"])

prop("P28", "Port payloads carry port, data and both flags",
     "A port payload read back has the port, data and next and complete flags it was written with, each flag independently of the other, replacing whatever the receiving value held; bytes too short for their announced port are refused with an error and nothing panics.",
     ["inputs"], "all ports up to 65535 bytes, data and flag combinations, and arbitrary byte strings",
     "There are no tests; shared flag bits only show for particular combinations and hostile lengths are not sampled.",
     ["invoke/portio.go"], [("Encode, Decode, Flags", "invoke/portio.go")], ["bytes written", "value or error read"])

prop("P29", "Instance handles find their instance and nothing else",
     "A handle given out for a live instance finds exactly that instance until it is removed, of concurrent removals exactly one gets it, and no handle is given out twice. A number which is not a live handle finds nothing, whatever it is, without disturbing the process or its garbage collector. All of this holds for concurrent use without data races.",
     ["inputs", "schedules", "histories"], "all sequences and interleavings of put, get and remove, arbitrary handle numbers and garbage collections at any time",
     "There are no tests; hostile numbers hurt only when the collector or the stack scanner meets them, and double removals need an interleaving.",
     ["invoke/instances.go"], [("Put, Get, Remove", "invoke/instances.go")], ["instances and verdicts returned", "process health under collection", "race reports"])

prop("P33", "Custom sections of a module are extracted exactly, hostile modules refused",
     "Reading the custom sections of a WebAssembly module returns, for every requested name that occurs, the exact content of a section with that name, including empty ones, wherever it stands and however its lengths are encoded, and nothing else. Malformed modules, cut short or with sizes exceeding them, end in an error, without a panic and without allocations out of proportion to them.",
     ["inputs"], "all section sequences, names, contents and length encodings, and arbitrary byte strings including every truncation and mutation of modules",
     "There are no tests; empty and trailing sections, padded lengths and lying sizes are rare inputs.",
     ["transport/wasmrs/customsections/customsections.go"], [("Read, decodeUTF8, decodeCustomSection", "transport/wasmrs/customsections/customsections.go")], ["sections or error returned", "allocated bytes"])

prop("P34", "UUIDs are unique, well-formed and read back in every accepted form",
     "Random UUIDs carry version 4 and the RFC 4122 variant and are never repeated, also with the random pool and when generated concurrently, and a failing random source yields an error and no UUID. Text, URN, braced, bare and binary forms of a UUID read back as the same UUID in any letter case; strings that are none of these are refused with an error and do not change the receiver. Version, variant, time and clock sequence are the bits the RFC assigns; concurrently taken time stamps are distinct.",
     ["inputs", "schedules", "fault_sequences"], "all UUIDs, all strings near the accepted forms, interleavings of concurrent generation, and failing or short random sources",
     "There are no tests; pool handling shows only under concurrency and at its refill, and parser slips at particular positions.",
     ["types/uuid/uuid.go", "types/uuid/version4.go", "types/uuid/marshal.go", "types/uuid/time.go"],
     [("Parse, String", "types/uuid/uuid.go"), ("random pool", "types/uuid/version4.go"), ("clock", "types/uuid/time.go")], ["UUIDs generated", "values or errors parsed", "bits decoded"])


prop("P36", "Guests compiled to WebAssembly serve and make requests of all kinds",
     "An operation exported by a guest that is compiled to WebAssembly is listed by the host with its kind, namespace, name and index, and a request of the host reaches it with its data and metadata and yields exactly the payloads, in order and never more than asked for, and the completion or error that the operation produces: at once, later when another request settles it, at the end of a flow, by mapping its input, or by requests to the host within it, whose data, metadata, demand, cancellation and errors pass through in both directions. Instances of one module share nothing. The example components answer on their ports what they are documented to compute, and fail on malformed ports.",
     ["inputs", "schedules", "histories"], "all mixes of concurrent requests of all kinds and payload sizes up to the buffers, under all demands, cancellations and failures of either side, in any number of instances",
     "The guest packages have variants of their own for WebAssembly that no test compiles or runs; what happens on the real runtime shows only there.",
     ["transport/wasmrs/guest/guest.go", "transport/wasmrs/guest/caller.go", "transport/wasmrs/host/instance.go", "rx/flux/flux_webassembly.go", "rx/mono/mono_webassembly.go", "proxy/mono.go", "transport/wasmrs/example/wordfrequency/generated.go"],
     [("GuestSend, handlers", "transport/wasmrs/guest/guest.go"), ("Request, Subscribe for WebAssembly", "rx/flux/flux_webassembly.go"), ("example components", "transport/wasmrs/example")],
     ["callbacks of the host's subscribers", "requests and events the guest sends to the host", "operations listed"])

RUST = "rust/crates/"
prop("P37", "Rust: frames survive encoding and decoding, malformed bytes are refused",
     "In the Rust crates, every request, payload, request-n, cancel and error frame encodes to exactly the bytes the RSocket layout prescribes (with the protocol's metadata flag only where metadata is present), and decoding any legal encoding returns its stream id, type, flags, counts, metadata, data and error code and message. Decoding arbitrary bytes either returns exactly the frame they denote or an error: a frame cut short, of an unknown type, or whose declared lengths exceed the bytes present is refused, and no input causes a panic. Length-prefixed frames are split off a byte stream exactly, and a request's metadata gives its operation index and the rest, or an error when it is too short.",
     ["inputs"], "all frame types, stream ids of 31 bits, flags, counts, metadata and data up to the field limits, and all byte strings, including every truncation and mutation of valid frames",
     "The unit tests decode a handful of well-formed frames; limits of the fields and hostile bytes do not occur in them.",
     ["wasmrs/src/frames/mod.rs", "wasmrs/src/frames/header.rs", "wasmrs/src/frames/request_payload.rs", "wasmrs/src/frames/f_payload.rs", "wasmrs/src/frames/f_error.rs", "wasmrs/src/util.rs", "wasmrs/src/frames/metadata.rs"],
     [("Frame::decode, Frame::encode", "wasmrs/src/frames/mod.rs"), ("FrameHeader", "wasmrs/src/frames/header.rs"), ("request payloads", "wasmrs/src/frames/request_payload.rs")],
     ["encoded bytes", "decoded frames or errors"], root=RUST)

prop("P38", "Rust: operation lists survive encoding, are looked up exactly and read safely",
     "In the Rust crates, an encoded list of operations follows the documented layout (magic, version, kinds, indices, directions, names, reserved bytes) and decodes to the same imports and exports; reserved bytes of other implementations are skipped. Looking up an import or export by namespace and operation gives the index of the first one registered under these names with the kind asked for, and nothing otherwise. Lists that are cut short or have a wrong magic, version, kind or name encoding are refused without a panic.",
     ["inputs"], "all lists of operations with names up to 65535 bytes, all truncations and mutations of encoded lists",
     "One unit test encodes one list; hostile lists come from any module that is loaded.",
     ["wasmrs/src/operations.rs"],
     [("OperationList::encode, decode, get_import, get_export", "wasmrs/src/operations.rs")],
     ["encoded bytes", "decoded lists or errors", "indices looked up"], root=RUST)

prop("P39", "Rust: monos, fluxes and channels deliver every item once, in order, and end",
     "In the Rust crates, a receiver of a flux gets every item sent before the end exactly once, in the order of each sender, and ends exactly once, after a completion, an error or once all senders are gone; receives that are abandoned lose nothing, the receiver can be taken out of its flux only once, and sending to a dropped receiver is an error, never a panic or a wait. A mono gives its one value or error exactly once to whoever waits for it, on any thread; unbounded and one-shot channels and the shared map and cell types keep what is put in until it is taken out.",
     ["inputs", "schedules", "histories"], "all interleavings of sending, completing, failing, cloning, dropping, receiving and abandoned receiving on one or several threads",
     "The unit tests send two or three items from one task and never abandon a receive or drop a side.",
     ["wasmrs-rx/src/flux.rs", "wasmrs-rx/src/flux/receiver.rs", "wasmrs-rx/src/flux/ops.rs", "wasmrs-rx/src/flux/ops/pipe.rs", "wasmrs-runtime/src/runtime.rs", "wasmrs-runtime/src/runtime/native/mod.rs"],
     [("Flux, FluxChannel", "wasmrs-rx/src/flux.rs"), ("FluxReceiver", "wasmrs-rx/src/flux/receiver.rs"), ("channels, SafeMap, OptionalMut", "wasmrs-runtime/src/runtime/native/mod.rs")],
     ["items, errors and ends received", "results of sending", "wake-ups"], root=RUST)

prop("P40", "Rust: sockets carry requests of all kinds to their exact answers and ends",
     "Between two Rust sockets, a request of any kind reaches the other side's handler once with its data and metadata, and the caller gets exactly the response, or the items in order, and then the completion or the error the handler produced, with nothing after it. A channel's input arrives in order and complete, is never sent beyond the demand granted, and its end or error reaches the handler; a handler that drops its input still answers. A caller that leaves cancels the stream once and stops its producer; a failed or ended stream leaves nothing behind on either side. Stream ids are odd for guests, even for hosts and never reused while in use. Frames that belong to no stream, come late, or make no sense for theirs do no harm to other requests and cause no panic.",
     ["inputs", "schedules", "histories", "fault_sequences"], "all mixes of concurrent requests of all kinds from both sides, with any sizes, failures, cancellations, dropped ends, delivery delays and stray frames, on one thread or several",
     "The unit tests run each request kind once against an echo, in one order; ends, errors, cancellations and their races are not sampled.",
     ["wasmrs/src/socket.rs", "wasmrs/src/socket/responder.rs", "wasmrs/src/socket/buffer.rs", "wasmrs/src/frames/mod.rs"],
     [("WasmSocket, process_once", "wasmrs/src/socket.rs"), ("responder", "wasmrs/src/socket/responder.rs")],
     ["frames written by either socket", "payloads, errors and ends callers and handlers see", "streams still registered when all is done"], root=RUST)

prop("P41", "Rust guests compiled to WebAssembly serve and make requests of all kinds",
     "An operation that a guest made of the Rust crates exports is listed by the Go host with its kind, namespace, name and index. A request of the host reaches it with its data and yields exactly the payloads, in order, and the completion or error that the operation produces, also when it answers later, maps its input, or asks the host on its way, with any number of requests in both directions at once; the guest's requests reach the host with their data and metadata and get their exact answers. A cancelled request stops its operation and what that has asked the host for; an input that is dropped is cancelled at its source. Requests for operations the guest does not have, without enough metadata, or that the operation refuses fail with an error and disturb no other. A frame too large for the host's buffer fails its own request and nothing else; neither side traps, and instances share nothing.",
     ["inputs", "schedules", "histories"], "all mixes of concurrent requests of all kinds and payload sizes up to and beyond the buffers, cancellations, failures and refusals of either side, in any number of instances",
     "The crate has no tests: it runs only as WebAssembly, and the two implementations, in Go and in Rust, never meet in the repository's tests.",
     ["wasmrs-guest/src/guest.rs", "wasmrs-guest/src/server.rs", "wasmrs-guest/src/exports.rs", "wasmrs/src/socket.rs", "wasmrs/src/socket/responder.rs", "wasmrs-runtime/src/runtime/wasm/mod.rs", "wasmrs-rx/src/flux.rs"],
     [("init, send_frame, send_host_frame", "wasmrs-guest/src/guest.rs"), ("WasmServer", "wasmrs-guest/src/server.rs"), ("executor for WebAssembly", "wasmrs-runtime/src/runtime/wasm/mod.rs"), ("operation list", "wasmrs/src/operations.rs")],
     ["callbacks of the host's subscribers", "requests and events the guest sends to the host", "operations listed"], root=RUST)

CG = "codegen/src/tinygo/"
prop("P42", "Generated MessagePack code carries every value of a model, and refuses the rest",
     "For any model of types, unions, enums, aliases and operation arguments that the TinyGo generator takes, the code it generates compiles, and writes each value as a map from the model's field names to the fields' values (a union as a map of the one alternative, an absent optional as nil), announcing exactly the bytes it writes. Reading gives an equal value back, from any legal encoding and any order of fields; unknown fields are skipped whole, absent ones leave the target as it was, and a value of another kind, cut short or damaged is refused without a panic and without allocating beyond what the bytes can hold.",
     ["inputs"], "all models within the generator's domain, all values of their types, all legal encodings of these values, and arbitrary bytes",
     "The generator has no tests, and what it writes is compiled only in its users' projects: each kind of field takes its own path through four visitors, and goes wrong only in some combination of kinds.",
     ["msgpack_visitor.ts", "msgpack_decoder_visitor.ts", "msgpack_encoder_visitor.ts", "msgpack_helpers.ts", "msgpack_constants.ts", "utilities.ts", "constants.ts"],
     [("MsgPackVisitor", CG + "msgpack_visitor.ts"), ("MsgPackDecoderVisitor, MsgPackDecoderUnionVisitor", CG + "msgpack_decoder_visitor.ts"), ("MsgPackEncoderVisitor, MsgPackEncoderUnionVisitor", CG + "msgpack_encoder_visitor.ts"), ("msgpackRead, msgpackWrite, msgpackSize", CG + "msgpack_helpers.ts")],
     ["generated code compiled against the library", "encoded bytes", "decoded values or errors", "bytes allocated"], root=CG)

prop("P43", "Generated providers reach exactly the operation they are named after",
     "For any model that the TinyGo generator takes, the provider, registration and wrapper code it generates compiles, exports every operation once, of its kind and under its names, and imports it under the same. A call of a provider's method makes one request of this kind and name, which carries the id of the stream it is called from; the operation gets equal arguments and the same inputs in order with their end or error, and the caller the same results in order, within its demand, with their end or error. Arguments that cannot be read are answered with an error and do not reach the operation.",
     ["inputs", "histories"], "all models within the generator's domain, with operations of all kinds, argument lists, inputs and results, all values of their types, failures of either side and demands",
     "The generator has no tests; the two halves of an operation are written by different visitors, one path for each kind of type, and must agree on every one.",
     ["export_visitor.ts", "register_visitor.ts", "wrappers_visitor.ts", "import_visitor.ts", "invokers_visitor.ts", "interface_visitor.ts", "interfaces_visitor.ts", "constants.ts", "utilities.ts"],
     [("WrappersVisitor", CG + "wrappers_visitor.ts"), ("InvokersVisitor", CG + "invokers_visitor.ts"), ("ProviderVisitor, ImportVisitor", CG + "import_visitor.ts"), ("RegisterVisitor", CG + "register_visitor.ts")],
     ["generated code compiled against the library", "requests routed by index, kind and name", "what operations and callers are given"], root=CG)
