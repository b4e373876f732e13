"""The text of every property: properties.jsonl, MANIFEST.json and the evidence files are made from it (tools/gen.py)."""

SIM = ("every path of the resolved program (rustc MIR of the current tree, helpers and closures inlined across functions and crates' own code) "
       "is explored by a path-sensitive abstract interpreter, and a property automaton is run over the whole resulting event graph; "
       "cases are merged only where the abstract states coincide, so the graph stands for every execution")
TRUST = [
    "rustc's MIR and trait resolution describe the program that is built (same features, std and dependency versions)",
    "the models of library calls (std, serde, serde_json, crossbeam-channel, url) in analyzer/models.py describe their documented behaviour",
    "execution under allocation failure, stack overflow or process termination by others is out of scope",
]
SERDE = TRUST + ["serde's data-model adapters (flatten, untagged content buffering) and serde_json's writer and parser are correct"]

P = {}


def prop(id, **kw):
    P[id] = kw


prop("C01",
     title="Outgoing framing: one exact, self-consistent frame per message",
     statement="For every message handed to a connection over stdio or TCP, the bytes written are exactly `Content-Length: N\\r\\n\\r\\n` followed by one JSON object of exactly N bytes, which carries `\"jsonrpc\":\"2.0\"` and the members of that message and nothing else. "
               "No other byte is ever written to the peer, frames are never interleaved or cut short while the output works, and each frame is flushed before the next message is waited for.",
     over=["inputs", "fault_sequences", "histories"], qtext="all messages (any payload text, any UTF-8), all sequences of messages, any write or flush failing, both transports",
     why="The existing tests serialize single messages to strings; none writes a frame, let alone one after another, non-ASCII payloads, or a failing output.",
     files=["bsp-server/src/message.rs", "bsp-server/src/transporter.rs"],
     mech=[("Message::write: header, body, flush", "bsp-server/src/message.rs"), ("writer threads of stdio and socket", "bsp-server/src/transporter.rs"), ("JsonRpc envelope", "bsp-server/src/message.rs")],
     explanation="Simulates the output typestate of both writer threads: " + SIM + ". The bytes between two messages must form header + byte length of the very string written + blank line + that string, made from an envelope that carries jsonrpc 2.0 and flattens the message taken from the channel; the encoder of Message must hand each variant on to its payload.",
     rule="frame typestate over write/write_all/flush events; the length term must be the byte length of the term written as body",
     technique="path-sensitive interprocedural typestate analysis over rustc MIR", assume=SERDE)

prop("C02",
     title="Incoming framing: every well-formed stream is read as exactly its messages",
     statement="Whatever the byte stream, the reader takes header lines ending in CRLF up to a blank line, uses the last `Content-Length` (other `Name: value` headers are ignored), then consumes exactly that many bytes and parses exactly these bytes as one message. "
               "A malformed header line, a missing or non-numeric Content-Length, a body cut short, invalid UTF-8, invalid JSON or a read error ends the reader with an error; the end of input where a header line would start ends it successfully. "
               "Bytes already received are never lost between messages, and nothing read for one message influences the next.",
     over=["inputs", "fault_sequences", "histories"], qtext="all byte streams, all splits of the stream into reads, all read errors, all sequences of messages, both transports",
     why="No existing test reads a frame; chunking, truncation, extra headers and malformed headers are unbounded input spaces.",
     files=["bsp-server/src/message.rs", "bsp-server/src/transporter.rs"],
     mech=[("read_msg_text", "bsp-server/src/message.rs"), ("Message::read", "bsp-server/src/message.rs"), ("buffered readers", "bsp-server/src/transporter.rs")],
     explanation="Simulates the header/body state machine over both reader threads: " + SIM + ". Knowledge about each line (ends with CRLF, splits at ': ', header name, parse result) is a dataflow fact attached to the buffer's contents; the automaton demands the exact reaction to each class of line, an exact-length body read bounded by the parsed length, and parsing of exactly those bytes.",
     rule="header/body typestate; the body read must want exactly the parsed Content-Length; parse argument must be the body buffer",
     technique="path-sensitive interprocedural typestate analysis over rustc MIR", assume=SERDE + ["BufRead::read_line, Take, read_to_end and read_exact behave as documented for any chunking"])

prop("C03",
     title="Method names and message kinds correspond one to one with the protocol",
     statement="For every request and notification kind of the library, the method name it reports, the method name it is sent with and the method name it is recognised by on input are the same, and are the Build Server Protocol's name for that kind (for example build/taskProgress, buildTarget/inverseSources). "
               "Any other method name, and no protocol one, is read as a custom message carrying that very name.",
     over=["inputs"], qtext="all message kinds (15 request variants, 10 notification variants) and all method strings",
     why="Tests cover 4 request and 4 notification encodings and almost no decodings; a swapped or misspelled entry in any other row passes.",
     files=["bsp-server/src/request.rs", "bsp-server/src/notification.rs"],
     mech=[("Request::method / Notification::method", "bsp-server/src/request.rs, notification.rs"), ("Serialize impls", "bsp-server/src/request.rs, notification.rs"), ("method match of the Deserialize impls", "bsp-server/src/request.rs, notification.rs")],
     explanation="Reads three relations off the resolved program and compares them with the protocol's table: variant to method() result, variant to the value encoded under \"method\", and decoded method text to variant. Each relation is computed by exploring all paths of the function with the abstract interpreter and collecting the facts about variant and method term at each exit.",
     rule="method(), encoder and decoder tables all equal the protocol table; the decoder maps every other text to Custom",
     technique="relational table extraction by abstract interpretation of MIR", assume=SERDE)

prop("C04",
     title="Encoding of messages: exactly the members the message has",
     statement="Every request is written as an object with its id, its method and its params, every notification as method and params without id, every response as id plus whichever of result and error is set (error data only if set), each member once and carrying the message's own value. "
               "Params are left out exactly for the parameterless kinds and, for custom messages, exactly when a custom request's params are null (a custom notification may also leave null params out); a failure of the output is always reported and nothing is written after it.",
     over=["inputs", "fault_sequences"], qtext="all message values; any serializer failure",
     why="Tests compare a handful of strings; no test writes a response or most kinds, or a failing serializer.",
     files=["bsp-server/src/request.rs", "bsp-server/src/notification.rs", "bsp-server/src/response.rs"],
     mech=[("Serialize for Request", "bsp-server/src/request.rs"), ("Serialize for Notification", "bsp-server/src/notification.rs"), ("derived Serialize of Response, ResponseError", "bsp-server/src/response.rs")],
     explanation="Runs a serializer-protocol automaton (open object, members, end, every outcome checked, announced length not 0 when members follow) over every path of the Serialize implementations, hand-written or derived, and compares the set of members on each path with what the variant known on that path must write.",
     rule="per variant: the written members equal the specified ones, value terms are projections of the variant's own fields",
     technique="typestate + dataflow analysis of serializer calls in MIR", assume=SERDE)

prop("C05",
     title="Decoding of messages: order-independent, exact, duplicate-safe",
     statement="A request (id, method, params) or notification (method, params) decodes from its members in any order and with any unknown members interleaved, which are skipped; absent params count as null. "
               "The decoded message carries the id, method and params of that very object, and parameterless kinds accept any params. "
               "A missing required member, a repeated member, an invalid member or params that do not fit the kind are an error, and nothing else is.",
     over=["inputs"], qtext="all JSON objects: every order, repetition and subset of members, any unknown members, any values",
     why="Tests decode two or three fixed texts; member orders, duplicates and unknown members are a combinatorial input space.",
     files=["bsp-server/src/request.rs", "bsp-server/src/notification.rs"],
     mech=[("RequestVisitor::visit_map", "bsp-server/src/request.rs"), ("NotificationVisitor::visit_map", "bsp-server/src/notification.rs")],
     explanation="Runs an object-decoder automaton over every path of the visitors including the member loop (loop unrolled to a fixed point over abstract states): tracks which members have been read, that each name's value is consumed, and which value reaches which field.",
     rule="success iff all required members present once and nested decodings succeed; payload fields are the read members' values",
     technique="typestate + dataflow analysis of MapAccess calls in MIR", assume=SERDE)

prop("C06",
     title="A message's kind follows from its id and method alone",
     statement="An incoming object with a valid id, a method and fitting params is a request, one with a method and without id is a notification, one with an id and without method is a response, and everything else is an error. "
               "In particular a malformed request is never taken for a response or a notification, and a message is never taken for another kind because of unrelated or unknown members.",
     over=["inputs"], qtext="all JSON objects, classified by id (absent/valid/invalid), method (absent/valid/invalid), params (fit/do not fit)",
     why="Tests decode well-formed requests only; no test gives a malformed message to the untagged decoder.",
     files=["bsp-server/src/message.rs", "bsp-server/src/request.rs", "bsp-server/src/notification.rs", "bsp-server/src/response.rs"],
     mech=[("untagged Message: order of attempts", "bsp-server/src/message.rs"), ("which members each decoder requires and ignores", "request.rs, notification.rs, response.rs")],
     explanation="Computes for each of the three decoders which classes of objects it accepts (from the object-decoder automaton), then walks every path of the Message decoder over the 18 classes id x method x params and compares the resulting kind with the protocol's. Two classes of malformed messages are known findings.",
     rule="for each class: the kind returned equals the kind defined by JSON-RPC, else error",
     technique="class-wise abstract evaluation of decoder paths in MIR", assume=SERDE)

prop("C07",
     title="The initialize handshake follows the protocol for every peer",
     statement="The handshake answers each request before initialize with a ServerNotInitialized error carrying that request's id, drops notifications other than exit, and fails on exit, a response or a closed connection. "
               "On initialize it calls the callback exactly once with that request's params, sends exactly one success response with that request's id and the callback's result, then succeeds returning these params if and only if the next message is the initialized notification. "
               "It sends nothing else, never sends before it must, and reports a failed send as an error.",
     over=["histories", "schedules", "fault_sequences"], qtext="all sequences of incoming messages of any length, disconnection at any point",
     why="No existing test runs the handshake at all.",
     files=["bsp-server/src/lib.rs"],
     mech=[("Connection::initialize, initialize_start, initialize_finish", "bsp-server/src/lib.rs")],
     explanation="Simulates the handshake's session automaton over all paths of Connection::initialize including its loop: " + SIM + ". Every received symbol is classified by what the path knows about its variant; every send is matched against what the automaton owes at that point.",
     rule="session automaton: refused / dropped / failed / answered / completed for each message class",
     technique="session-typestate analysis over rustc MIR", assume=TRUST)

prop("C08",
     title="Shutdown is answered once and completes only on exit",
     statement="For a shutdown request the library sends exactly one response, with the request's id and a null result, before it waits at most 30 seconds for the next message, and returns true if and only if that message is the exit notification; anything else, a timeout or a closed connection is an error. "
               "For any other request it returns false, sends nothing and takes no message.",
     over=["histories", "schedules", "fault_sequences"], qtext="all requests, all next messages, timeout and disconnection",
     why="No existing test handles a shutdown.",
     files=["bsp-server/src/lib.rs"],
     mech=[("Connection::handle_shutdown", "bsp-server/src/lib.rs")],
     explanation="Simulates the shutdown automaton over all paths of Connection::handle_shutdown; the bound of the wait is read as a constant term (the elapsed time itself is a runtime quantity and not claimed).",
     rule="session automaton over send/recv_timeout events and the returned value",
     technique="session-typestate analysis over rustc MIR", assume=TRUST)

prop("C09",
     title="Built responses carry exactly one of result and error, with the right code",
     statement="A success response has the given id, the JSON of the given value as result and no error; an error response has the given id, no result, and an error with the given code and message and no data. "
               "Each named error constructor uses its JSON-RPC/LSP code (parse error -32700, invalid request -32600, method not found -32601, invalid params -32602, internal error -32603, server error -32099 to -32000, server not initialized -32002, request cancelled -32800, content modified -32801, server cancelled -32802).",
     over=["inputs"], qtext="all ids, values, codes and messages, all 13 constructors",
     why="No existing test builds a response.",
     files=["bsp-server/src/response.rs", "bsp-server/src/error.rs"],
     mech=[("Response constructors", "bsp-server/src/response.rs"), ("ErrorCode", "bsp-server/src/error.rs")],
     explanation="Explores every constructor with symbolic arguments and compares each returned aggregate, field by field, with the specified term; reads the discriminants of ErrorCode from the type-checked program.",
     rule="returned term equality per constructor; discriminant table equality",
     technique="symbolic-value dataflow over rustc MIR", assume=TRUST)

prop("C10",
     title="Incoming delivery: every message once, in order, ending after exit",
     statement="Every message read from the peer is handed to the application exactly once, unchanged and in the order it was sent, waiting for the application as long as it takes. "
               "The reader ends successfully right after it has delivered an exit notification and after no other message; when the application has dropped its receiver it ends with an error instead of reading on.",
     over=["histories", "schedules", "fault_sequences"], qtext="all sequences of messages, all receiver speeds, receiver dropped at any point, both transports",
     why="No existing test starts a transport thread.",
     files=["bsp-server/src/transporter.rs"],
     mech=[("reader threads of stdio and socket", "bsp-server/src/transporter.rs")],
     explanation="Simulates the delivery automaton over both reader threads on the same event graph as C02.",
     rule="one blocking send of the message term per successful parse; ends exactly after exit",
     technique="path-sensitive interprocedural typestate analysis over rustc MIR", assume=TRUST + ["crossbeam channels deliver in order"])

prop("C11",
     title="Outgoing delivery: every message once, in order, until the senders are gone",
     statement="The writer takes every message the application sends, in order, writes each of them completely exactly once, and ends successfully only when every sender is gone and everything taken has been written and flushed. "
               "After any failure of serialization, writing or flushing it takes no further message and ends with an error.",
     over=["histories", "schedules", "fault_sequences"], qtext="all sequences of messages, any write/flush failing, senders dropped at any point, both transports",
     why="No existing test starts a transport thread or makes an output fail.",
     files=["bsp-server/src/transporter.rs", "bsp-server/src/message.rs"],
     mech=[("writer threads of stdio and socket", "bsp-server/src/transporter.rs"), ("error propagation of Message::write", "bsp-server/src/message.rs")],
     explanation="Simulates the writer's loop automaton over both writer threads on the same event graph as C01.",
     rule="recv -> frame -> flush -> recv; error exit iff an effect failed",
     technique="path-sensitive interprocedural typestate analysis over rustc MIR", assume=SERDE)

prop("C12",
     title="Connections are wired to the right streams, channels and threads",
     statement="A stdio connection reads standard input and writes standard output, a TCP connection reads and writes exactly the connected or accepted stream; what the application sends goes to the writer and what the reader reads comes to the application, and the returned thread handles are the reader's and the writer's respectively. "
               "No thread holds the other end of the application's channels, so dropping the connection ends the writer, and a set-up failure is returned as an error. In the in-memory pair each side receives exactly what the other sends, without ever blocking the sender.",
     over=["programs", "configurations", "fault_sequences"], qtext="all three transports (stdio, connect, listen) and the in-memory pair; all set-up failures",
     why="No existing test creates a connection.",
     files=["bsp-server/src/lib.rs", "bsp-server/src/transporter.rs"],
     mech=[("Connection::stdio, connect, listen, memory", "bsp-server/src/lib.rs"), ("Transporter", "bsp-server/src/transporter.rs")],
     explanation="Tracks channel halves, stream clones and thread handles as symbolic resources from the calls that create them to the fields of the returned connection and the captures of the spawned closures, and checks the resulting connection graph.",
     rule="ownership graph of channel halves, streams and join handles",
     technique="ownership/escape dataflow over rustc MIR", assume=TRUST)

prop("C13",
     title="Joining reports every failure of the transport threads",
     statement="Joining the transport threads returns success only if both the reader and the writer have been joined and both ended successfully; if one failed, its error is returned. A panic of a thread is passed on as a panic, and never otherwise.",
     over=["fault_sequences", "schedules"], qtext="all combinations of success, error and panic of the two threads",
     why="No existing test joins transport threads.",
     files=["bsp-server/src/io_thread.rs"],
     mech=[("IoThreads::join", "bsp-server/src/io_thread.rs")],
     explanation="Explores all paths of IoThreads::join with symbolic thread outcomes and checks the returned value against what the path knows about both outcomes.",
     rule="Ok iff both joined and both Ok; Err/panic only from the thread's own",
     technique="path-sensitive dataflow over rustc MIR", assume=TRUST)

prop("C14",
     title="Only protocol frames ever reach standard output",
     statement="No code of the library prints to standard output or otherwise writes it (including diagnostics of failing threads), except the stdio transport's writer when it writes message frames.",
     over=["programs", "fault_sequences"], qtext="every function of both crates, generic or not, reachable or not, all paths",
     why="Tests cannot observe stray prints on paths they do not run (for example a panicking thread).",
     files=["bsp-server/src/io_thread.rs", "bsp-server/src/transporter.rs", "bsp-server/src/message.rs"],
     mech=[("eprintln in IoThreads::join", "bsp-server/src/io_thread.rs"), ("stdout lock in the writer thread", "bsp-server/src/transporter.rs")],
     explanation="Effect analysis: scans every call in the MIR of every local function of both crates for effects on standard output (print machinery, io::stdout, raw descriptors) and shows that the only origin is the writer thread of the stdio transport.",
     rule="effect set {stdout} only at the writer",
     technique="interprocedural effect analysis over rustc MIR", assume=TRUST)

prop("C15",
     title="No input from the peer can panic or abort the process",
     statement="Whatever the peer sends or however its connection fails, the transport threads, the handshake and shutdown functions and all decoders of incoming messages never panic, never index or slice out of bounds, never overflow and never allocate an amount of memory taken from a number in the input before that much data has arrived.",
     over=["inputs", "fault_sequences"], qtext="all byte streams, all decoded values, all i/o failures and disconnections",
     why="Panics hide in the inputs nobody wrote a test for; tests sample a few well-formed texts.",
     files=["bsp-server/src/message.rs", "bsp-server/src/transporter.rs", "bsp-server/src/lib.rs", "bsp-server/src/request.rs", "bsp-server/src/notification.rs", "bsp-types/src"],
     mech=[("read_msg_text: bounds and length handling", "bsp-server/src/message.rs"), ("error propagation in the transport threads", "bsp-server/src/transporter.rs"), ("Deserialize impls", "all payload types")],
     explanation="Collects every potential panic (assertions of overflow and bounds, unwrap/expect/panic calls, slicing, documented panicking library calls) and every allocation with a run-time amount on every path reachable from the peer's input, and discharges each with the facts known on that path; what cannot be discharged is a violation.",
     rule="no undischarged panic or input-sized allocation event on any path from the peer-facing roots",
     technique="panic-freedom dataflow analysis over rustc MIR", assume=TRUST + ["a serialize failure of a value supplied by the application itself (Response::ok) is the application's"])

prop("C16",
     title="Handling a message leaves no memory behind",
     statement="No memory is deliberately leaked while messages are read, decoded, delivered, answered or written, so a long-lived server does not grow with the number of messages it has handled. Known finding: each custom request and each custom notification leaks its method name.",
     over=["histories", "inputs"], qtext="all message histories of any length",
     why="Leaks only show over unbounded histories; unit tests do not measure memory.",
     files=["bsp-server/src/request.rs", "bsp-server/src/notification.rs", "bsp-server/src/transporter.rs"],
     mech=[("Box::leak of custom method names", "bsp-server/src/request.rs, notification.rs")],
     explanation="Effect analysis for deliberate leaks (Box::leak, mem::forget, ManuallyDrop, into_raw, static collections) on every path reachable from message handling; leaked value and place are part of the key, the two known ones are listed.",
     rule="effect set {leak} empty except for listed keys",
     technique="effect analysis over rustc MIR", assume=TRUST)

prop("C17",
     title="Payload members have the protocol's names, types and own values",
     statement="Every payload type of the protocol (requests' params, results, notifications' params and the structures inside them) is written with exactly the protocol's member names, each member once and carrying the value of its own field in the protocol's JSON type, and is read back from the same names into the same fields; required members are insisted on, unknown ones tolerated, repeated ones refused. "
               "Known findings: the params of buildTarget/compile, test, run and dependencySources deviate in the listed members.",
     over=["inputs"], qtext="47 payload types, 126 members, all values, all member orders",
     why="Tests touch 3 of the 47 types with one value each.",
     files=["bsp-types/src"],
     mech=[("serde derives and attributes of the payload types", "bsp-types/src/*.rs")],
     explanation="Explores the (derived or hand-written) Serialize and Deserialize implementation of each payload type as resolved by the compiler and compares the extracted relation field <-> member name <-> JSON type with a table of the protocol.",
     rule="field/member relation of encoder and decoder equals the protocol's table",
     technique="relational dataflow analysis of serde implementations in MIR", assume=SERDE)

prop("C18",
     title="Unset optional members are omitted, set ones written, absent ones accepted",
     statement="In every payload an optional member that is unset is left out (never sent as null or empty text) and one that is set is always written; required members are always written. When reading, an absent optional member is accepted and read as unset.",
     over=["inputs"], qtext="all payload types and all combinations of set and unset members",
     why="The combinations of optional members are exponential; tests check two.",
     files=["bsp-types/src"],
     mech=[("skip_serializing_if / default attributes", "bsp-types/src/*.rs")],
     explanation="On every path of each payload encoder decides from the path's facts whether each optional field is empty and compares with whether the member is written; on every successful decoder path checks what an absent member becomes.",
     rule="written iff not empty; absent accepted and empty",
     technique="path-sensitive dataflow analysis of serde implementations in MIR", assume=SERDE)

prop("C19",
     title="Numeric codes and tags have the protocol's values both ways",
     statement="Message types (error 1, warning 2, info 3, log 4), task statuses (ok 1, error 2, cancelled 3), source kinds (file 1, directory 2) and build-target event kinds (created 1, changed 2, deleted 3) are written as these numbers and read back from them, other numbers being refused. "
               "Build target tags and task data kinds are written and read with the protocol's spelling (library, integration-test, compile-task, ...), and any other text is read and written back as a custom one unchanged.",
     over=["inputs"], qtext="all variants, all numbers and all texts",
     why="No existing test covers these tables except one message type.",
     files=["bsp-types/src/message_type.rs", "bsp-types/src/task/status.rs", "bsp-types/src/task/kind.rs", "bsp-types/src/bt_tag.rs", "bsp-types/src/bt_sources.rs", "bsp-types/src/bt_did_change.rs"],
     mech=[("serde_repr enums", "bsp-types/src"), ("hand-written string enums", "bt_tag.rs, task/kind.rs")],
     explanation="Extracts variant -> written scalar and scalar class -> decoded variant from all paths of the implementations and compares both with the protocol's tables.",
     rule="code tables of encoder and decoder equal the protocol's",
     technique="relational table extraction by abstract interpretation of MIR", assume=SERDE)

prop("C20",
     title="Accessors, setters and constructors act on their own member only",
     statement="Each accessor of a payload, request or notification returns the current value of the member it is named after, each setter replaces that member and leaves every other one unchanged, and each constructor or conversion puts each argument into the member it is named after and leaves the others at their defaults; predicates such as is_empty or is_ok tell the truth. "
               "The params accessor of a request returns the JSON of its own params (null for the parameterless kinds), and the severity helpers of log and show messages use the severity they are named after with the given text.",
     over=["inputs", "programs"], qtext="all accessors, setters and constructors of the payload types, all values",
     why="Hundreds of one-line functions, of which tests call fewer than ten; copy-and-paste slips stay unnoticed.",
     files=["bsp-types/src", "bsp-server/src/request.rs", "bsp-server/src/notification.rs"],
     mech=[("getters, setters, new, new_simple", "bsp-types/src/*.rs"), ("Request::id, Request::params", "bsp-server/src/request.rs")],
     explanation="Explores every inherent function of the payload types with symbolic arguments and compares its result and the final state of its `self` with the term its name and signature stand for.",
     rule="getter = projection, setter = single-field update, constructor = aggregate of arguments",
     technique="symbolic-value dataflow over rustc MIR", assume=TRUST)

prop("C21",
     title="Conversions into messages keep the kind, the id and the payload",
     statement="Converting params into a notification or message, an id with params into a request or message, an id with a result into a message, or a request, notification or response into a message yields exactly the kind that belongs to the payload's type, with the given id and the given payload unchanged; results become success responses.",
     over=["inputs", "programs"], qtext="every conversion into Message, Request, Notification, RequestId, all values",
     why="About 60 conversions, hardly any used in tests; the types of several payloads would fit several kinds.",
     files=["bsp-server/src/request.rs", "bsp-server/src/notification.rs", "bsp-server/src/response.rs", "bsp-server/src/message.rs"],
     mech=[("From impls", "bsp-server/src/*.rs")],
     explanation="Enumerates every From implementation producing a message type in the resolved program, explores it with a symbolic argument and compares the returned aggregate with the term its source type stands for.",
     rule="per From impl: returned aggregate = variant(payload type)(id, payload)",
     technique="symbolic-value dataflow over rustc MIR", assume=TRUST)

prop("C22",
     title="Default values advertise nothing",
     statement="Default server capabilities, build target capabilities, providers and parameters claim no capability: every optional member is unset, every flag is false, every list is empty, the task data kind is none and the task status is ok.",
     over=["inputs", "programs"], qtext="all Default implementations of the payload types",
     why="No existing test looks at default capabilities; a client would call methods the server does not offer.",
     files=["bsp-types/src/server_capabilities.rs", "bsp-types/src/bt_capabilities.rs", "bsp-types/src/providers.rs"],
     mech=[("Default impls", "bsp-types/src/*.rs")],
     explanation="Explores every Default implementation of the payload types and checks each member of the returned aggregate.",
     rule="every leaf of the default value is None / false / empty",
     technique="symbolic-value dataflow over rustc MIR", assume=TRUST)

prop("C23",
     title="The four send functions send once and report the true outcome",
     statement="send, try_send, send_timeout and send_deadline convert the given value and hand exactly that message to the connection's outgoing channel exactly once, in the manner they are named after and with the given timeout or deadline, and return the channel's outcome unchanged.",
     over=["inputs", "schedules", "fault_sequences"], qtext="all messages, full or disconnected channels",
     why="No existing test sends through a connection.",
     files=["bsp-server/src/lib.rs"],
     mech=[("Connection::send, try_send, send_timeout, send_deadline", "bsp-server/src/lib.rs")],
     explanation="Explores the four functions and checks the single channel operation on each path, its arguments, and that the result returned is the operation's.",
     rule="exactly one channel operation of the same name per path; result identity",
     technique="typestate + dataflow analysis over rustc MIR", assume=TRUST)

prop("C24",
     title="Request ids are kept exactly, number or text",
     statement="A request id read as a number is a number id and one read as text is a text id, each with exactly the value read, and is written back as the same JSON value; a number and a text are never equal or converted into one another. "
               "Two ids are equal exactly when they are of the same sort and value, equal ids hash equally, and the order of ids agrees with equality (so ids work as keys of hash maps and of ordered maps).",
     over=["inputs"], qtext="all ids: all 32-bit integers, all texts, all other JSON values (refused)",
     why="Tests use the id 3 only.",
     files=["bsp-server/src/request/id.rs"],
     mech=[("untagged IdRepr", "bsp-server/src/request/id.rs")],
     explanation="Explores encoder, decoder, conversions, equality and hashing of request ids on symbolic values and compares the terms.",
     rule="encode/decode terms are identities per sort; equality is structural",
     technique="symbolic-value dataflow over rustc MIR", assume=SERDE)

prop("C25",
     title="Default request handlers never bring the server down",
     statement="Every default method of the build server trait returns: either an empty successful result, or an error for methods the server does not implement. None panics, prints, sends or blocks.",
     over=["inputs", "programs"], qtext="all default methods, all params",
     why="No existing test calls a default method.",
     files=["bsp-types/src/server.rs"],
     mech=[("default bodies of BuildServer", "bsp-types/src/server.rs")],
     explanation="Explores the default body of every trait method and requires a return (no panic, no effect) on every path; a successful default must be an empty value.",
     rule="no panic event; result is Err or empty Ok",
     technique="panic-freedom and effect analysis over rustc MIR", assume=TRUST)

prop("C26",
     title="Timestamps, counters and codes keep their full range",
     statement="Event times in milliseconds and progress counters are carried as 64-bit integers, unchanged when written and when read, and error codes as signed integers of at least 32 bits.",
     over=["inputs"], qtext="all values, in particular those above 2^32",
     why="No existing test uses a task notification; a narrow integer passes small samples.",
     files=["bsp-types/src/task/start.rs", "bsp-types/src/task/progress.rs", "bsp-types/src/task/finish.rs", "bsp-server/src/response.rs"],
     mech=[("Option<u64> members", "bsp-types/src/task/*.rs")],
     explanation="Checks the integer width of the members' types in the type-checked program and that encoder and decoder move their values without conversion.",
     rule="type width and identity dataflow",
     technique="type query + dataflow over rustc MIR", assume=SERDE)

prop("C27",
     title="Equality and cloning of payloads and messages are member-wise",
     statement="Two values of a payload type, a message id or an error type that can be compared are equal exactly when they are of the same variant and every member is equal; cloning a message, payload, response or error yields a value with exactly the same variant and members.",
     over=["inputs", "programs"], qtext="all comparable and all cloneable types of both crates, all values",
     why="Equality is used by tests, never tested itself; a forgotten member is only seen by a pair of values that differ in it alone.",
     files=["bsp-types/src", "bsp-server/src"],
     mech=[("derived PartialEq and Clone", "bsp-types/src/*.rs, bsp-server/src/*.rs")],
     explanation="Explores every implementation of PartialEq and Clone of the two crates on symbolic values; each path's answer must follow from what the path knows about the pairs of members (compositionally: members' own comparisons are shown separately or trusted if foreign).",
     rule="eq path answers = conjunction of member equalities; clone = identity aggregate",
     technique="path-sensitive dataflow over rustc MIR", assume=TRUST)

prop("C28",
     title="The workspace root path is the decoded root URI",
     statement="The root path derived from an initialize request is the file path its root URI denotes (percent-encoding decoded), and the URI's path only if the URI denotes no file path; it never depends on anything else.",
     over=["inputs"], qtext="all URIs",
     why="No existing test derives a root path.",
     files=["bsp-types/src/initialize_params.rs"],
     mech=[("InitializeBuild::root_path", "bsp-types/src/initialize_params.rs")],
     explanation="Explores root_path and checks which term of the root URI is returned under which outcome of the conversion.",
     rule="result = to_file_path(root_uri) if Ok, else path(root_uri)",
     technique="path-sensitive dataflow over rustc MIR", assume=TRUST + ["Url::to_file_path decodes percent-encoding"])

prop("C29",
     title="Transport failures are reported with their own cause",
     statement="The error a transport thread ends with, and so the one join reports, tells what happened: a failing read, write or flush of the stream ends it with that very I/O error (or one of its kind), a malformed header, a missing or non-numeric Content-Length and a body that is not UTF-8 with invalid data, an input that ends inside a body with unexpected end of file, "
               "a body that is no valid message with the JSON error of that text, and a connection whose receiver is gone with broken pipe. A caller can therefore tell a lost peer from one that does not speak the protocol.",
     over=["inputs", "fault_sequences"], qtext="every cause of failure at every read, write and parse, both transports",
     why="No existing test makes a stream fail or looks at an error's kind.",
     files=["bsp-server/src/message.rs", "bsp-server/src/transporter.rs"],
     mech=[("error conversions of Message::read / Message::write", "bsp-server/src/message.rs"), ("ends of the transport threads", "bsp-server/src/transporter.rs")],
     explanation="Follows the term of every error the transport threads return back to what the path knows to have failed: " + SIM + ". The error term must be the failed operation's own error, or an I/O error made with the kind that belongs to the cause.",
     rule="per failing path: kind(error term) = kind of the cause known on that path",
     technique="path-sensitive interprocedural value-provenance analysis over rustc MIR", assume=SERDE + ["serde_json's conversion into io::Error keeps its category (syntax and data errors: invalid data, end of text: unexpected end of file)"])

prop("C30",
     title="What is written of a payload can be read back as the same value",
     statement="Reading what the library has written of a payload, a response or an error gives back the same value: every object an encoder can write, for every combination of set and unset members, is accepted by the decoder of the same type, "
               "each member fills the field it was written from, and a field that was left out is read as the value it had when it was left out (an optional member explicitly set to JSON null counts as unset).",
     over=["inputs"], qtext="all values of all types that are both written and read, all combinations of set and unset members",
     why="Tests round-trip a few complete values; a member left out in one direction only, or refused when absent, needs one particular combination.",
     files=["bsp-types/src", "bsp-server/src/response.rs"],
     mech=[("derived and hand-written Serialize and Deserialize implementations", "bsp-types/src, bsp-server/src")],
     explanation="For every struct of the two crates that has both an encoder and a decoder (found in the program, not listed), explores both symbolically and composes them: for each set of members some path of the encoder writes, with what is known of the fields on that path, every path of the decoder over exactly these members must succeed and put into each field what was written from it, or the value it was known to have.",
     rule="decode(encode(v)) = v, member by member, modulo the encoding of numbers, texts, lists and maps, which is serde's",
     technique="composition of symbolic encoder and decoder summaries over rustc MIR", assume=SERDE + ["serde_json, url and lsp-types read back the scalars, texts and structures they write"])

prop("C36",
     title="Connections, messages and errors can be shared between threads",
     statement="Connections, thread handles, messages, ids, payloads and errors can be moved to another thread and used by several threads at once without a data race; this follows from what they are made of and is not merely asserted. "
               "Request ids can be keys of hashed and ordered collections, and the error types can be passed on as standard errors.",
     over=["schedules", "programs"], qtext="all programs that use the public types from several threads",
     why="Tests use one thread; a member that is not thread-safe still compiles in them.",
     files=["bsp-server/src", "bsp-types/src"],
     mech=[("public types of both crates", "bsp-server/src, bsp-types/src")],
     explanation="Asks the compiler's trait solver, for every public type of the two crates in the type-checked program, whether Send and Sync are implemented, requires that no implementation of either is written by hand, and that the traits users' collections and error handling build on are implemented.",
     rule="Send and Sync hold for every public type by derivation; listed trait implementations exist",
     technique="type-level query: auto-trait solving on the type-checked program", assume=[TRUST[0], "crossbeam-channel's Sender and Receiver are thread-safe as they declare"])

prop("C37",
     title="Printed ids and errors say what they stand for",
     statement="A number id prints as the number and a text id in quotes, so that a number and a text never print alike; a protocol error prints exactly its text, and keeps the text of the error it was made from; "
               "a payload of the wrong kind is reported with the method of the message at hand, one that does not fit with its method and the decoder's error; a task status prints the name of its state. A write that fails is reported.",
     over=["inputs"], qtext="all ids, all messages of every method, all error texts, all task states",
     why="No test prints an id or an error; a text missing its method or error is noticed only when a log is needed.",
     files=["bsp-server/src/error.rs", "bsp-server/src/request/id.rs", "bsp-types/src/task/status.rs"],
     mech=[("Display for RequestId", "bsp-server/src/request/id.rs"), ("Display for ProtocolError, ExtractError", "bsp-server/src/error.rs"), ("Display for TaskStatus", "bsp-types/src/task/status.rs")],
     explanation="Explores every path of the formatting functions, follows what is written piece by piece (format strings are decoded), and compares the text with the value it stands for; results of writes are followed to the return.",
     rule="text = value (ids, protocol errors, states) or contains method and cause (extraction errors); no write failure is dropped",
     technique="symbolic-value dataflow over rustc MIR", assume=SERDE)

prop("C38",
     title="What the application builds and sends never panics and can always be encoded",
     statement="Whatever values an application gives them, the public functions and the trait implementations of the library (constructors, conversions, accessors, setters, comparisons, printing, encoding, connecting and sending) return and never panic or end the process; "
               "and every value of a payload, request, notification, response or error type can be encoded: an encoder fails only when its output fails. Exceptions: joining passes on the panic of a joined thread, Notification::from panics on texts other than its two, and a value whose own encoder fails.",
     over=["inputs", "programs"], qtext="all public functions and trait implementations, all argument values",
     why="About 580 functions, each with arguments no test gives it; building a response unwraps the outcome of encoding, so one encoder that refuses a value ends the server.",
     files=["bsp-server/src", "bsp-types/src"],
     mech=[("public functions and trait implementations", "bsp-server/src, bsp-types/src"), ("Response::ok unwraps to_value", "bsp-server/src/response.rs")],
     explanation="Explores every public function and trait implementation with symbolic arguments, collects assertions, unwraps, explicit panics, slicing and panicking library calls, and discharges each from the path's facts (linear inequalities over lengths and positions, variants); follows every encoder's error to its output.",
     rule="no reachable panic, a path that returns; an encoder's error is its output's",
     technique="abstract interpretation of rustc MIR with a linear-inequality domain", assume=SERDE)

NA = {
    "C31": dict(
        title="The wait for exit ends within 30 seconds of wall time",
        statement="After answering shutdown the library returns within 30 seconds whatever the peer does.",
        over=["schedules"], qtext="all schedules and clocks", why="Needs real time.",
        files=["bsp-server/src/lib.rs"], mech=[("recv_timeout", "bsp-server/src/lib.rs")],
        reason="Elapsed wall-clock time and the (blocking) rendezvous send before it are runtime quantities; statically only the bound handed to the channel can be read, which C08 does."),
    "C32": dict(
        title="No deadlock between application, reader and writer",
        statement="Under every schedule, each message sent while the peer reads, and each message received while the application takes messages, eventually gets through.",
        over=["schedules"], qtext="all interleavings and peer behaviours", why="Schedules are not sampled by unit tests.",
        files=["bsp-server/src/transporter.rs"], mech=[("rendezvous channels", "bsp-server/src/transporter.rs")],
        reason="Liveness depends on the peer's and the application's run-time behaviour (rendezvous channels block by design); the structural preconditions (who holds which channel end, one reader, one writer, no locks) are claimed by C12."),
    "C33": dict(
        title="Memory used per header line is bounded",
        statement="A peer cannot make the reader hold an unbounded header line.",
        over=["inputs"], qtext="all streams", why="Needs unbounded inputs.",
        files=["bsp-server/src/message.rs"], mech=[("read_line", "bsp-server/src/message.rs")],
        reason="The design reads unbounded lines with read_line, and memory in proportion to data received is not a promise of the library; how much a peer sends is a runtime quantity."),
    "C34": dict(
        title="Pending-request bookkeeping matches responses to requests",
        statement="Each registered outgoing request is completed by exactly its own response, each incoming one answered once.",
        over=["histories"], qtext="all histories", why="Unbounded histories.",
        files=["bsp-server/src/req_queue.rs"], mech=[("ReqQueue", "bsp-server/src/req_queue.rs")],
        reason="req_queue.rs is not part of the compiled crate (the module is commented out), so there is no resolved program to analyse and no behaviour a user could rely on."),
    "C35": dict(
        title="Task notifications are well nested",
        statement="Each task start is followed by exactly one finish with the same task id, and progress lies between them.",
        over=["histories"], qtext="all histories", why="Unbounded histories.",
        files=["bsp-types/src/task.rs"], mech=[("TaskStart, TaskProgress, TaskFinish", "bsp-types/src/task")],
        reason="The sequence of notifications is chosen by the application at run time; the library offers only the payload types, so the property is an obligation of its users, not of this code."),
}
