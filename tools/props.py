AI = "abstract interpretation of SSA (value-numbering domain, no execution)"
N_AI = ("Sound for every argument and input within the stated assumptions: each path's effect is compared with the specification as normalised terms; loops beyond the stated unrolling are reported as undecided, never assumed. Trusts go/ssa, the term normaliser, the documented behaviour of the standard library and the io contracts of the wrapped transport.")
PROPS = [
 dict(id="C01", title="Binary protocol puts the binary wire format on the transport",
  statement="For every argument, each TBinaryProtocol write call on a transport that accepts the data returns no error and emits exactly the Thrift binary layout: big-endian integers, IEEE-754 doubles, 0/1 booleans, i32 length-prefixed strings and binaries, one type byte and an i16 id per field, a zero byte for stop, one or two type bytes and an i32 size for containers. Message headers carry 0x8001 and the message type in strict-write mode and the legacy name/type/seqid layout otherwise. Struct, field, container and message ends (and struct begin) emit nothing.",
  over=["inputs", "configurations"], quant="every Write method, both strict-write settings, every name, id, type, size and payload",
  why="The tests write a dozen sample values and mostly read them back with the same code, so a symmetric change of layout passes; the layout must hold for every value and length.",
  files=["tbinary_protocol.go"], mech=[("WriteMessageBegin/WriteFieldBegin/WriteMapBegin/WriteListBegin/WriteSetBegin", "tbinary_protocol.go"), ("WriteByte/I16/I32/I64/Double/String/Binary", "tbinary_protocol.go")],
  observe=["bytes given to the transport's Write"], technique=AI, note=N_AI),
 dict(id="C02", title="Binary protocol reads exactly the binary wire format",
  statement="Each TBinaryProtocol read call consumes exactly the bytes of the item in the Thrift binary layout and returns the value they encode. A message header whose first word is negative is accepted only with version 0x8001; without that version it is rejected under strict read and otherwise read in the legacy layout. Negative string, binary and container lengths are rejected; booleans 1 and 0 are true and false.",
  over=["inputs", "configurations"], quant="every Read method, both strict-read settings, every byte sequence the transport delivers",
  why="Tests read what the same implementation wrote; foreign, truncated or hostile byte sequences and the version gate are never presented.",
  files=["tbinary_protocol.go"], mech=[("ReadMessageBegin version gate", "tbinary_protocol.go"), ("Read* scalars", "tbinary_protocol.go")],
  observe=["bytes consumed from the transport", "values and errors returned"], technique=AI, note=N_AI),
 dict(id="C03", title="Compact protocol scalars follow the compact wire format both ways",
  statement="TCompactProtocol writes i16, i32 and i64 as zigzag varints, bytes raw, doubles as eight little-endian IEEE-754 bytes, strings and binaries as an unsigned varint length followed by the bytes, and stand-alone booleans as 1 (true) and 2 (false), for every value. Each read call consumes exactly that encoding and returns the value it encodes. Varints of more than ten bytes and negative lengths are rejected.",
  over=["inputs"], quant="every scalar Write and Read method, every value, every byte sequence delivered",
  why="Tests round-trip sample values through the same code; zigzag sign handling, varint continuation and length limits depend on every value and every byte.",
  files=["tcompact_protocol.go"], mech=[("varint and zigzag helpers", "tcompact_protocol.go"), ("Write*/Read* scalars", "tcompact_protocol.go")],
  observe=["bytes given to and consumed from the transport", "values returned"], technique=AI, note=N_AI),
 dict(id="C04", title="Compact protocol headers and type codes follow the compact format",
  statement="TCompactProtocol message headers carry 0x82, version 1 with all three bits of the message type, the sequence id as an unsigned varint and the name; readers reject another protocol id or version. List and set headers put sizes below 15 in the high nibble and larger ones in a varint after 0xf0; a map header is a varint size followed, when non-empty, by one byte of key and value type; a field header is a 1..15 id delta and type nibble or the type followed by the zigzag id. Every Thrift type maps to its compact code and back, unknown codes are rejected and negative container sizes are rejected on read.",
  over=["inputs"], quant="every message type, every field and element type, every size, id, name and sequence id, every byte sequence delivered",
  why="Tests use one message type, small containers of a few types and small ids; header forms switch on thresholds and tables that only some values reach.",
  files=["tcompact_protocol.go"], mech=[("getCompactType/getTType tables", "tcompact_protocol.go"), ("Write/ReadMessageBegin, FieldBegin, MapBegin, ListBegin, SetBegin", "tcompact_protocol.go")],
  observe=["bytes given to and consumed from the transport", "values and errors returned"], technique=AI, note=N_AI),
 dict(id="C05", title="Compact field-id deltas and boolean fields survive nesting",
  statement="In TCompactProtocol, the field id a header is relative to is the previous field of the same struct: entering a struct starts from 0, leaving it restores the enclosing struct's last id, on both writing and reading, and consecutive structs do not influence each other. A boolean field's value travels in the field header, its value call emits or consumes nothing more, and later booleans outside field headers are one byte again.",
  over=["inputs", "histories"], quant="call sequences that nest, leave and follow structs and boolean fields, with every field id",
  why="The tests write flat structs with one field; the id bookkeeping only shows across nested sequences with particular ids.",
  files=["tcompact_protocol.go"], mech=[("lastField stack", "tcompact_protocol.go"), ("boolean field state", "tcompact_protocol.go")],
  state=[("lastField/lastFieldId", "ids of enclosing structs and of the current one", "tcompact_protocol.go"), ("boolFieldName…/boolValue", "pending boolean field", "tcompact_protocol.go")],
  observe=["bytes given to and consumed from the transport"], technique=AI, note=N_AI + " Sequences analysed: two and three levels of nesting, struct after struct, boolean field followed by another field and a bare boolean; deeper nesting repeats the same stack operations but is not enumerated."),
 dict(id="C06", title="Binary and compact protocols report every transport failure",
  statement="On every binary- or compact-protocol call during which an operation of the wrapped transport fails, the call returns a non-nil error made from the transport's error, and no call panics because of it. Flush flushes the wrapped transport and Transport returns it.",
  over=["inputs", "fault_sequences"], quant="every TProtocol method of both protocols, every single transport operation that can fail in it",
  why="The tests use transports that never fail; a dropped error shows only when one particular write or read of a call fails.",
  files=["tbinary_protocol.go", "tcompact_protocol.go"], mech=[("every err check after a transport call", "tbinary_protocol.go"), ("every err check after a transport call", "tcompact_protocol.go")],
  observe=["errors returned by protocol calls"], technique=AI + "; error-propagation obligation on every failing path", note=N_AI),
 dict(id="C07", title="Exceptions keep kind, type and message when they are converted",
  statement="Converting an error to an exception maps nil to nil, keeps the type and message of an exception, turns io.EOF into an END_OF_FILE transport exception and base64 corruption into an INVALID_DATA protocol exception, and gives every other error the unknown type; the original error's text stays in the message. Constructors store the type and message they are given, or the unknown type. The read/write-field and -struct wrappers keep the type of the cause (INVALID_DATA if it was unknown) and name the struct, the field, its id as a number and the cause.",
  over=["inputs"], quant="every error value given to every exception constructor and conversion",
  why="Tests convert one or two sample errors; the dispatch over error kinds and message construction is never enumerated.",
  files=["texception.go", "ttransport_exception.go", "tprotocol_exception.go", "tapplication_exception.go"], mech=[("NewTTransportExceptionFromOsError", "ttransport_exception.go"), ("NewTProtocolException*", "tprotocol_exception.go")],
  observe=["exceptions returned"], technique=AI, note=N_AI),
 dict(id="C08", title="ReadAll fills the whole buffer or reports an error",
  statement="ReadAllTransport and the ReadAll of every transport return a nil error only when the whole buffer was filled with the bytes of consecutive reads in order, ask each read only for the part still missing, and report a non-nil error when fewer bytes arrive, including when the underlying read returns no data. The count returned with an error is the number of bytes read, and an empty buffer needs no read.",
  over=["inputs", "schedules"], quant="every ReadAll implementation, every split of the data over reads, every read error at every position",
  why="Tests read from in-memory buffers that deliver everything at once; partial reads and errors between them never occur.",
  files=["ttransport.go", "tsocket.go", "tnonblocking_socket.go", "thttp_client.go", "tiostream_transport.go", "tmemory_buffer.go", "tframed_transport.go"], mech=[("ReadAllTransport", "ttransport.go")],
  observe=["buffer contents, count and error returned"], technique=AI, note=N_AI + " Loop rounds after the third are analysed with the running count unknown (widened)."),
 dict(id="C09", title="Framed transport frames writes and unframes reads",
  statement="TFramedTransport hands nothing to the wrapped transport before Flush; Flush writes one frame, a four-byte big-endian payload size followed by exactly the bytes written since the previous frame, and flushes the wrapped transport. Reads return the payloads of consecutive frames in order, at least one byte and never past the end of the current frame or the caller's buffer, take a new frame only when the current one is used up, and a read into an empty buffer loses nothing. Negative frame sizes and every failure of the wrapped transport are reported.",
  over=["inputs", "histories", "fault_sequences"], quant="every sequence of writes and flushes, every frame size, every sequence of reads with every buffer size, every failing operation",
  why="Tests write and read one small block; frame boundaries falling inside reads, hostile sizes and failures in the header or payload are not sampled.",
  files=["tframed_transport.go"], mech=[("Flush", "tframed_transport.go"), ("Read/readFrame", "tframed_transport.go")],
  state=[("writeBuffer", "payload written since the last frame", "tframed_transport.go"), ("readBuffer", "unread payload of the current frame", "tframed_transport.go")],
  observe=["bytes given to and consumed from the wrapped transport", "bytes and errors returned by Read"], technique=AI, note=N_AI + " Sequences of up to three calls from a fresh transport, with symbolic sizes."),
 dict(id="C10", title="Skip consumes exactly one value of any type and stops at the depth limit",
  statement="Skip reads exactly one value of the given type from the protocol: the matching scalar read, every field of a struct up to its stop field, or as many keys, values or elements as a map, list or set declares, with the begin and end calls around them, one depth level down per nesting. It stops with the error of the first operation that fails; an exhausted depth and types that have no value are reported as errors before anything is read. The Skip of every protocol does this on that protocol with the limit set by SetMaxSkipDepth.",
  over=["inputs","fault_sequences"], quant="every field type, every depth, every nesting, every declared size, every failing operation",
  why="Tests skip one or two well-formed fields; unknown types, failures inside nested values, depth limits and large sizes are not sampled.",
  files=["tprotocol.go"], mech=[("Skip", "tprotocol.go"), ("SkipDefaultDepth/SetMaxSkipDepth", "tprotocol.go")],
  observe=["operations performed on the protocol", "error returned"], technique=AI + "; induction over the nesting depth", note=N_AI + " Element counts are compared exactly for up to three elements, further rounds with the counter unknown (widened)."),
 dict(id="C11", title="Application exceptions are written and read as the standard struct",
  statement="TApplicationException.Write performs a struct of the message as string field 1 (it may be left out when empty) and the type as i32 field 2, ended by a field stop. Read accepts those fields in any order and number, skips every other field id or type by its own type, and returns an exception with the type and message read. Any failing protocol operation ends the call with that error.",
  over=["inputs","fault_sequences"], quant="every type and message, every sequence of fields received, every failing operation",
  why="Tests write and read one exception; unknown fields, unexpected field types, repeated fields and failures inside are not sampled.",
  files=["tapplication_exception.go"], mech=[("Read/Write", "tapplication_exception.go")],
  observe=["operations performed on the protocol", "exception and error returned"], technique=AI, note=N_AI + " Sequences of up to two fields are compared value by value; later fields with the carried values unknown (widened)."),
 dict(id="C12", title="Servers process every connection with the configured parts and close it",
  statement="Every server constructor keeps the parts it is given (default: identity transport factory, binary protocol). Serve listens first, handles each accepted client exactly once with the processor, transports and protocols the configured factories make for it, calls Process until it returns false or an error and never after, and then closes both transports, also when Process panics. Serve ends with the error of Listen or Accept, or with nil once Stop was seen; it looks at the stop flag before every Accept, and Stop sets the flag before interrupting the server transport.",
  over=["inputs","histories","fault_sequences","schedules"], quant="every server type and constructor, every sequence of accepted clients and Process results, a Stop at any point",
  why="Server tests start no server and exercise no failing or panicking processor, no Stop during Serve and no mixed factories.",
  files=["tsimple_server.go","tnonblocking_server.go","tprocessor_factory.go","ttransport_factory.go"], mech=[("Serve/processRequest", "tsimple_server.go"), ("Serve/processRequest", "tnonblocking_server.go"), ("Stop", "tnonblocking_server.go")],
  state=[("stopped", "stop requested", "tsimple_server.go")],
  observe=["calls on the server transport, factories, processor and transports"], technique=AI + "; interference of a concurrent Stop at every synchronisation operation", note=N_AI + " Up to three accepts and three Process rounds are followed exactly, later ones with the carried state unknown."),
 dict(id="C13", title="Stop and Interrupt are safe from other goroutines and end Accept",
  statement="Fields that a server's Stop or IsStopped shares with Serve, and a server transport's Interrupt with Listen, Accept and Close, are accessed atomically or under a common lock; locks are released on every path, never taken twice, and none that Interrupt needs is held while Accept waits. Interrupt closes the listener; afterwards Accept reports an error without waiting until Listen opens a listener again. Listen on an open listener keeps it, Close and Interrupt may be repeated, and Accept returns a transport on the accepted connection.",
  over=["schedules","histories"], quant="every interleaving of the named methods, every sequence of Listen, Accept, Interrupt and Close of the lengths analysed",
  why="Data races and lost interrupts depend on the interleaving; no test runs two goroutines on a server.",
  files=["tserver_socket.go","tnonblocking_server_socket.go","tsimple_server.go","tnonblocking_server.go","tserver_transport.go"], mech=[("mutex and interrupted flag", "tserver_socket.go"), ("mutex", "tnonblocking_server_socket.go"), ("atomic stop flag", "tnonblocking_server.go")],
  state=[("listener", "open listener or nil", "tserver_socket.go"), ("stopped", "stop requested", "tnonblocking_server.go")],
  observe=["accesses to shared fields", "calls on net.Listener", "errors returned"], technique="lockset analysis over abstract paths plus typestate of the listener (abstract interpretation of the SSA form)", note="Lockset covers the fields of the receiver; it assumes an object's methods are its entry points. Sequences analysed: Listen, Listen again, Accept, Interrupt, Close, each followed by the others."),
 dict(id="C14", title="Socket transports keep connections, deadlines and byte streams straight",
  statement="A socket transport that is not open performs no network operation and reports NOT_OPEN; Open dials its address once, within its timeout if it has one, and leaves it open exactly if that succeeds, and Open on an open transport reports ALREADY_OPEN. Every read and write of the connection is preceded in the same call by setting its deadline to the timeout from now, or to none without a timeout; the connection has received exactly the bytes written, in order, when Flush succeeds, and none of them reach a later connection. Failures are reported as transport exceptions (end of file as END_OF_FILE), and Close closes the connection once.",
  over=["inputs", "histories", "fault_sequences"], quant="every constructor, timeout and address, every sequence of calls of the lengths analysed, every failing operation",
  why="Tests open one socket on the loopback; failing dials, deadlines, failures in the middle of a write, and reuse after Close are not sampled.",
  files=["tsocket.go", "tnonblocking_socket.go"], mech=[("Open/Close/Read/Write/Flush", "tsocket.go"), ("Open/Close/Read/Write/Flush", "tnonblocking_socket.go")],
  state=[("conn", "open connection or nil", "tsocket.go"), ("writeBuffer", "bytes not yet flushed", "tsocket.go")],
  observe=["calls on net.Dial and net.Conn", "bytes handed to the connection", "results and errors returned"], technique="typestate and " + AI, note=N_AI + " Connection, address and dialer are abstract. Sequences of up to five calls from every constructor."),
 dict(id="C15", title="HTTP transports post exactly what was written and release every response",
  statement="The HTTP transports request nothing before Flush (apart from the GET of NewTHttpClient); each Flush posts to the configured URL exactly the bytes written since the previous Flush, whether that one succeeded or not. A failed request and any status other than 200 are reported as transport exceptions and leave no response to read; reads come from the body of the last response only. Every response body obtained is closed exactly once, by the next Flush or Close at the latest, and after Close nothing is requested and every call reports NOT_OPEN.",
  over=["inputs", "histories", "fault_sequences"], quant="every URL and data, every sequence of calls of the lengths analysed, every status code, every failing request, read or close",
  why="Tests run one exchange against a server that answers 200; error statuses, failed requests, leaked bodies and reuse after a failure are not sampled.",
  files=["thttp_client.go"], mech=[("Flush/Close/Read/Write", "thttp_client.go")],
  state=[("response", "last response", "thttp_client.go"), ("requestBuffer", "bytes of the next request", "thttp_client.go")],
  observe=["calls on net/http and on response bodies", "request bodies", "results and errors returned"], technique="typestate and " + AI, note=N_AI + " The HTTP client is abstract. Sequences of up to two requests."),
 dict(id="C16", title="Stream and memory transports pass bytes through unchanged and close streams",
  statement="A TIOStreamTransport hands its writer exactly the bytes written, in order, all of them by the time Flush succeeds, and reads only from its reader into the caller's buffer; a missing reader or writer is reported as NOT_OPEN and failures as transport exceptions. Close closes a reader and writer that can be closed, once each, and afterwards neither is used. A TMemoryBuffer delivers exactly the bytes written, in order and once, and nothing after Reset or Close.",
  over=["inputs", "histories", "fault_sequences"], quant="every constructor, streams with and without Close and Flush, every sequence of calls of the lengths analysed, every failing operation",
  why="Tests pass small blocks through in-memory buffers; streams that fail, that can be closed or flushed, and calls after Close are not sampled.",
  files=["tiostream_transport.go", "tmemory_buffer.go"], mech=[("Close/Read/Write/Flush", "tiostream_transport.go"), ("Read/Write/Reset", "tmemory_buffer.go")],
  state=[("Reader/Writer", "stream or nil", "tiostream_transport.go"), ("buf", "bytes not yet read", "tmemory_buffer.go")],
  observe=["bytes handed to the writer", "calls on the streams", "results and errors returned"], technique="typestate and " + AI, note=N_AI + " bufio and bytes.Buffer are modelled as byte queues. The streams are of types outside the package."),
 dict(id="C17", title="Factories make what their settings say from what they are given",
  statement="The protocol a protocol factory makes is bound to exactly the transport it is given, each time, and is configured by the factory's settings. The default transport factory returns its argument and the framed one frames what its inner factory makes of the argument; every other transport factory makes a new transport, with the settings of the given transport if that is of its own kind and has them, otherwise with its own. A processor factory returns its processor for every transport.",
  over=["inputs"], quant="every factory type, every constructor, every setting, every transport given",
  why="Tests use the default settings; strict flags, mixed settings and transports of the factory's own kind are not sampled.",
  files=["tprotocol_factory.go", "ttransport_factory.go", "tprocessor_factory.go", "tbinary_protocol.go", "tcompact_protocol.go", "tjson_protocol.go", "tsimple_json_protocol.go", "tframed_transport.go", "thttp_client.go", "tiostream_transport.go", "tmemory_buffer.go", "tsocket.go", "tnonblocking_socket.go", "tserver_socket.go", "tnonblocking_server_socket.go"], mech=[("GetProtocol", "tbinary_protocol.go"), ("GetTransport", "tframed_transport.go"), ("GetTransport", "tiostream_transport.go")],
  observe=["fields of the objects made"], technique=AI + "; structural comparison of the objects made with those of the constructors", note=N_AI + " Capacity hints (memory buffer size) count as settings."),
 dict(id="C18", title="JSON protocols write exactly the documented JSON for every call sequence",
  statement="For calls in protocol order on a transport that accepts the data, each write call of TSimpleJSONProtocol and TJSONProtocol returns no error and the text emitted is the documented JSON of the calls: values as JSON text in the right place of lists, sets, maps (keys quoted), structs and messages, with separators exactly between items. TJSONProtocol wraps field values in type-keyed objects under the field id and prefixes containers with type names and sizes. Nesting in any combination and successive messages on one protocol do not disturb each other.",
  over=["inputs", "histories"], quant="every write call in every kind of place (top level, list, set, map key and value, first and later field, message, nested), every argument, every wire type",
  why="Tests write one scalar or one sample struct; the separators and quoting depend on the whole history of open contexts, on the position of an item and on the kind of each value.",
  files=["tsimple_json_protocol.go", "tjson_protocol.go"], mech=[("OutputPreValue/OutputPostValue", "tsimple_json_protocol.go"), ("Write*", "tsimple_json_protocol.go"), ("Write*", "tjson_protocol.go")],
  state=[("dumpContext", "open contexts while writing", "tsimple_json_protocol.go")],
  observe=["bytes given to the transport's Write"], technique=AI, note=N_AI + " Each operation is analysed in each kind of place, and one chain nested 60 deep. Names, strings and binaries are arbitrary; json.Marshal is trusted for the text of a string."),
 dict(id="C19", title="JSON protocols read back every value their format denotes",
  statement="For a document as the JSON writers produce it, possibly with white space between tokens, other spellings of numbers and escapes, or null for values, each read call of TSimpleJSONProtocol and TJSONProtocol made in protocol order returns no error and the values the text denotes (names, ids, types and sizes included as far as the format carries them), and consumes exactly its text. The result does not depend on how the text is split over reads, and no call asks the transport for data beyond its item.",
  over=["inputs", "histories", "schedules"], quant="every read call in every kind of place, every value, several spellings of each value, every split of the text over reads of the transport",
  why="Tests read what was just written from one memory buffer; foreign spellings, white space, splits of the stream inside a token and blocking at the end of a message never occur.",
  files=["tsimple_json_protocol.go", "tjson_protocol.go"], mech=[("ParsePreValue/ParsePostValue/ParseString*", "tsimple_json_protocol.go"), ("Read*", "tsimple_json_protocol.go"), ("Read*", "tjson_protocol.go")],
  state=[("parseContextStack", "open contexts while reading", "tsimple_json_protocol.go"), ("reader", "text not yet consumed", "tsimple_json_protocol.go")],
  observe=["values and errors returned", "text left and data requested"], technique=AI, note=N_AI + " Six spellings of documents with symbolic digits, characters, escapes and white space; numbers of digits are those of the listed patterns."),
 dict(id="C20", title="JSON protocols report malformed text and never panic on it",
  statement="When the text is a document of the format with one fault in it - the end of the input at any position, another byte in place of a structural character, an extra comma or colon, a value of another kind, a malformed word, number, string or base64 text, an integer outside the range of the type read, a negative container size, or another protocol version - the read calls of TSimpleJSONProtocol and TJSONProtocol do not all succeed: one of them returns an error. None of them panics.",
  over=["inputs", "fault_sequences"], quant="every document of the places and operations analysed, every position of the end, every structural character, every invalid form",
  why="Tests give valid text only; a parser that accepts or panics on a damaged document shows only at one position of one kind of token.",
  files=["tsimple_json_protocol.go", "tjson_protocol.go"], mech=[("Parse*", "tsimple_json_protocol.go"), ("Read*", "tjson_protocol.go")],
  observe=["errors returned", "panics"], technique=AI, note=N_AI + " One fault at a time; after the fault the input ends. Unknown type names of TJSONProtocol are read as STOP and are not counted as faults."),
 dict(id="C21", title="JSON protocols report every transport failure",
  statement="On every read or write call of TSimpleJSONProtocol and TJSONProtocol, made in protocol order, during which a write to the wrapped transport or a read from it fails with an error other than end of file, the call returns a non-nil error, and no call panics because of it. Flush flushes the wrapped transport and reports its failure; Transport returns the wrapped transport.",
  over=["inputs", "fault_sequences"], quant="every read and write call in every kind of place, every single transport operation that can fail in it",
  why="The tests use transports that never fail; a dropped error shows only when one particular write or refill of a call fails.",
  files=["tsimple_json_protocol.go", "tjson_protocol.go"], mech=[("every err check after a write or read", "tsimple_json_protocol.go"), ("every err check after a write or read", "tjson_protocol.go")],
  observe=["errors returned by protocol calls"], technique=AI + "; error-propagation obligation on every failing path", note=N_AI),
 dict(id="C22", title="Go values become values of a thrift type exactly or are refused",
  statement="For every thrift type and every Go value of a boolean, integer, floating-point, text, byte-slice, Numeric, TType, TStruct, TMap, TSet or TList kind, TType.CoerceData returns without panic and either refuses or gives a value of the type's Go type. What it gives is the value itself, Go's conversion of the number, the number its text parses to, whether it is true, or its decimal, boolean or shortest text; a byte slice is true unless it is empty or one zero byte, and a value of a user's type with a String method counts as that text; text that is no number is refused for number types. A value of unknown type never comes back with another Go type than the thrift type's.",
  over=["inputs"], quant="every thrift type, every listed kind of Go value and every value of it, and a value nothing is known about",
  why="Tests coerce a few constants; there are some 300 pairs of thrift type and Go kind, each with its own branch of a switch.",
  files=["ttype.go", "tnumeric.go"], mech=[("TType.CoerceData", "ttype.go")],
  state=[("numeric", "a number with its text", "tnumeric.go")],
  observe=["results of CoerceData"], technique="path-sensitive abstract interpretation of CoerceData over symbolic values of each dynamic type, against the conversion table as terms",
  note="decides CoerceData for each pair of type and Go kind; strconv as uninterpreted functions; conversion of out-of-range floats is Go's"),
 dict(id="C23", title="Values of each thrift type are totally ordered, whatever order maps iterate in",
  statement="For any two values of one thrift type TType.Compare gives -1, 0 or 1 with true as their relative order is, Less whether it is -1, and Less, Equals and CompareTo of structs and containers agree with it (Less of a list compares two of its elements); nil comes first, then values that cannot be coerced, without panic. Lists, sets and maps compare by element types, sizes and elements and do not depend on the order of insertion into sets and maps or of Go's iteration over maps; structs compare by name, fields and attributes; slices of values or text compare by length, then elements. No comparison leaves a goroutine behind.",
  over=["inputs", "schedules"], quant="every relative order of two symbolic values of each type and of lists, sets and maps holding one of them, integers given in other integer types, families of all small lists, sets and maps compared pairwise for one total order, every iteration order of Go maps",
  why="Tests compare no containers; results depended on map iteration order, which a test sees only now and then.",
  files=["ttype.go", "tcompare.go", "tmap.go", "tset.go", "tlist.go", "tstruct.go", "tfield.go"], mech=[("TType.Compare", "ttype.go"), ("TType.Less", "ttype.go"), ("Compare*", "tcompare.go"), ("CompareTo", "tmap.go"), ("CompareTo", "tset.go"), ("CompareTo", "tlist.go"), ("CompareTo", "tstruct.go")],
  state=[("tMap", "entries in Go maps per key type", "tmap.go")],
  observe=["results of Compare, Less, Equals and CompareTo"], technique="path-sensitive abstract interpretation over symbolic values whose order is assumed, finite maps iterated in every order, goroutines interpreted as channel feeders",
  note="all relative orders of two values per type; containers and structs up to three elements; NaN excluded; no mutation during iteration"),
 dict(id="C24", title="TList behaves as a sequence of elements of its type",
  statement="After every history of Push, Pop, Insert, Delete, Set and Swap with indexes in range, Len, At and Iter give the elements of a sequence edited the same way, and Iter ends. Contains tells whether an element compares equal and Less compares two elements. What is put in is coerced to the element type or refused without effect; a list without element type takes that of its first element.",
  over=["histories", "inputs"], quant="every edit, and for three types every two edits, with every index, on lists of 0 to 3 symbolic elements of every thrift type; Contains and Less for every relative order of three elements",
  why="No test uses a list beyond appending; each edit must be right at each index and size.",
  files=["tlist.go"], mech=[("Push/Pop/Insert/Delete/Set/Swap", "tlist.go"), ("indexOf", "tlist.go"), ("Iter/iterate", "tlist.go")],
  state=[("l", "elements", "tlist.go"), ("elemType", "element type", "tlist.go")],
  observe=["results of Len, At, Iter, Contains, Less, ElemType, Pop"], technique="abstract interpretation of call histories with symbolic elements against a model sequence",
  note="lists up to five elements, one or two edits after building; indexes in range"),
 dict(id="C25", title="TSet keeps each element once and finds exactly its elements",
  statement="After every history of Add and Remove a set has each element added and not removed since exactly once, taking elements that compare equal as one. Len, Values, Front to Back, Back to Front and Contains agree on that. What is added is coerced to the element type or refused without effect; a set without element type takes that of its first element.",
  over=["histories", "inputs"], quant="every history of up to three calls (two for most types, plus one of six) over three symbolic elements in every relative order, for every thrift type",
  why="What Add does depends on how the new element compares with each element there, in every combination; no test adds elements in descending or mixed order.",
  files=["tset.go"], mech=[("Add", "tset.go"), ("Remove", "tset.go"), ("find", "tset.go"), ("Values", "tset.go")],
  state=[("l", "elements in order", "tset.go")],
  observe=["results of Len, Values, Front, Back, Contains, ElemType"], technique="abstract interpretation of call histories with symbolic elements in every weak order against a model set of equivalence classes",
  note="three elements, up to three calls (six in one order); NaN excluded"),
 dict(id="C26", title="TMap keeps the last value of each key for every type of key",
  statement="After every history of Set a map has the value last set for each key, taking keys that compare equal as one. Get, Contains, Len, Keys, Values, Iter, KeyIter and ValueIter agree on that, Keys and Values list the entries in one order, and the channels end. Keys and values are coerced to the map's types or the call has no effect; a map without types takes those of its first entry.",
  over=["histories", "inputs", "schedules"], quant="every history of up to three calls of Set over three symbolic keys in every relative order, for every thrift type of key and of value, every iteration order of Go maps",
  why="There is one store per key type and a separate branch for each in every method; tests cover four key types and no iteration.",
  files=["tmap.go"], mech=[("Set", "tmap.go"), ("Get", "tmap.go"), ("Contains", "tmap.go"), ("iterate/iterateKeys/iterateValues", "tmap.go"), ("Keys/Values", "tmap.go")],
  state=[("b, i08, i16, i32, i64, f64, s, l", "entries per key type", "tmap.go")],
  observe=["results of Get, Contains, Len, Keys, Values, Iter, KeyIter, ValueIter, KeyType, ValueType"], technique="abstract interpretation of call histories with symbolic keys in every weak order against a model map, finite maps iterated in every order",
  note="three keys, up to three calls; NaN excluded; no mutation during iteration"),
 dict(id="C27", title="Field, struct and message metadata answer lookups and compare consistently",
  statement="Fields, structs and messages give the name, type and id they were made from, and the texts of fields and messages show them. Fields are equal when type and id are and compare by id, type, name; a field container or struct finds its fields by id and by name and otherwise gives the empty field, iterates over them in order, equals one with the same fields in any order, and compares by size, then by its fields in the order of their ids. Messages are equal when name, type and sequence id are. The field, struct and message that stand for none have no name, type STOP or 0, id 0 and no fields.",
  over=["inputs"], quant="every relative order of the parts of two fields and of the ids of containers of up to two fields each; lookups by symbolic id and name in containers of up to three fields",
  why="Protocols and comparison of structs rely on these lookups; no test compares metadata.",
  files=["tfield.go", "tstruct.go", "tmessage.go"], mech=[("tField.CompareTo/Equals", "tfield.go"), ("NewTFieldContainer", "tfield.go"), ("tFieldContainer.*", "tfield.go"), ("tStruct.*", "tstruct.go"), ("tMessage.Equals", "tmessage.go")],
  state=[("nameToFieldMap, idToFieldMap", "lookup tables", "tfield.go")],
  observe=["results of the accessors, lookups and comparisons"], technique="abstract interpretation over symbolic names, types and ids in every relative order",
  note="containers of up to three fields with different ids and names"),
 dict(id="C28", title="Numerics and thrift types say what they were made from",
  statement="A Numeric made from a number gives that number, in Go's conversion, by each of its views and its decimal or shortest text; one made from text gives the text and the number the text parses to; the infinities, NaN, zero and null numbers that are ready made give what their names say. Each of the 256 type codes belongs to exactly the classes of its type, defined types have different names, and the code on the wire is the type's own except that BINARY travels as STRING. A TType equals and is ordered like its code given as any Go integer type, and TypeFromValue gives the type of a value, which accepts it.",
  over=["inputs"], quant="every number and text, every type code, every Go kind of value",
  why="Tests look at a few types and make two numerics.",
  files=["tnumeric.go", "ttype.go"], mech=[("NewNumericFrom*", "tnumeric.go"), ("TType.Is*", "ttype.go"), ("TType.ThriftTypeId", "ttype.go"), ("TType.Coerce", "ttype.go"), ("TypeFromValue", "ttype.go")],
  state=[("numeric", "integer, floating-point and text view of a number", "tnumeric.go")],
  observe=["results of the views and classification methods"], technique="path-sensitive abstract interpretation over a symbolic number or text and over each type code",
  note="strconv as uninterpreted functions; what Numerics of other text give as numbers is left open"),
 dict(id="C29", title="Objects of the library share no state that changes",
  statement="Once the package is initialised, no function or method of the library writes to a package-level variable, or to memory that was made while the package was initialised and is held by one, except under a lock, once, or through a type made for concurrent use; only SetMaxSkipDepth sets the variable it names. So protocols, transports, collections, factories and servers that were not given each other's parts do not affect each other, whatever the calls made on them and however goroutines interleave.",
  over=["histories", "schedules"], quant="every function of the package, every call sequence and every interleaving of calls on different objects",
  why="A shared scratch buffer or cache works in every test that uses one object at a time and corrupts data only when two objects are used in a particular interleaving.",
  files=["tbinary_protocol.go", "tcompact_protocol.go", "tsimple_json_protocol.go", "tjson_protocol.go", "tframed_transport.go", "tmemory_buffer.go", "tnumeric.go", "tfield.go", "tprotocol.go"], mech=[("JSON_* and _TTypeToCompactType, set once", "tsimple_json_protocol.go"), ("ANONYMOUS_FIELD", "tfield.go"), ("SetMaxSkipDepth", "tprotocol.go")],
  state=[("package-level variables and what they hold", "constants of the formats and values standing for none", "tsimple_json_protocol.go")],
  observe=["bytes written and values read by one object while another is in use", "data races"], technique="inclusion-based points-to and side-effect analysis with separate contexts for package initialisation",
  note="all functions of the package; the standard library is assumed to change only what it documents; user code does not write through exported variables"),
 dict(id="C30", title="Byte slices given to and got from the library belong to the caller",
  statement="No method of a protocol or transport keeps the byte slice it is given beyond the call, hands it to another goroutine, or, unless it is there to fill the slice, changes it or the memory behind it; and no byte slice that reading a value returns is still held by the library. So a caller may reuse or change the slice at once, and no later call changes what was read before.",
  over=["histories", "inputs"], quant="every exported method with a byte slice parameter or reading one, every history of calls after it",
  why="Tests write a slice and read it back at once; a kept or reused buffer shows only when the caller changes it later or a second call overwrites it.",
  files=["tbinary_protocol.go", "tcompact_protocol.go", "tsimple_json_protocol.go", "tjson_protocol.go", "tframed_transport.go", "tiostream_transport.go", "tmemory_buffer.go", "thttp_client.go", "tsocket.go", "tnonblocking_socket.go"], mech=[("WriteBinary/ReadBinary", "tbinary_protocol.go"), ("Write/Read", "tframed_transport.go"), ("Write", "thttp_client.go"), ("Write", "tsocket.go")],
  state=[("write and read buffers", "copies of what was written or is to be read", "tframed_transport.go")],
  observe=["bytes that reach the transport after the caller changed its slice", "values read before and after further reads"], technique="inclusion-based points-to (escape and mutation) analysis of the slices that enter and leave",
  note="the standard library's writers copy; user transports do not keep what they are given, as io.Writer requires"),
 dict(id="C31", title="The code the generator emits for any IDL program compiles",
  statement="For an IDL program that includes no other, made of structs, exceptions, enums, typedefs, constants and services whose fields, arguments, results, exceptions and constants have any base type, enum, struct, typedef or container of these, with or without default values and field ids, required, optional or neither, functions oneway or not and services extending one another, with names distinct after capitalisation (words that Go, the library or the emitted code use included), the Go generator emits packages and remote commands that are valid Go and type-check against the library.",
  over=["inputs"], quant="every IDL program built from these constructs; decided for one program of each combination of kind of type and place",
  why="The generator's own test compares one emitted file for one IDL; most combinations of type and place are never generated, let alone compiled.",
  files=["compiler/cpp/src/generate/t_go_generator.cc"], mech=[("generate_struct, generate_service, generate_const, generate_enum, generate_typedef", "compiler/cpp/src/generate/t_go_generator.cc"), ("render_const_value", "compiler/cpp/src/generate/t_go_generator.cc"), ("generate_service_remote", "compiler/cpp/src/generate/t_go_generator.cc")],
  state=[("f_types_, f_service_, f_consts_", "the emitted files", "compiler/cpp/src/generate/t_go_generator.cc")],
  observe=["type errors in the emitted packages and commands"], technique="specialisation of the generator per IDL program over clang's typed syntax tree (constant propagation), then Go type-checking of the emitted code",
  note="containers nest at most two deep; identifiers that Go or the emitted code use are tried in each place"),
 dict(id="C32", title="Emitted structs read back what they write, in the IDL's layout",
  statement="For a struct with a default, a required and an optional field of any base type, enum, struct, typedef or container of these, the emitted Write makes exactly the protocol calls the IDL prescribes (struct, and per field its name, type code and id, the value by the call of its type, containers with the wire types of their elements and their length, end and stop calls), leaving out only optional fields and nil bytes; the emitted Read, given those calls' values by id, by id and name or by name only, or with a field it does not know in front, consumes all of them and gives a struct with the same values. A failure of any one call of the protocol, in writing or reading, is returned as an error. A new struct has the default values the IDL gives, and keeps them when written and read.",
  over=["inputs", "faults"], quant="every value of the fields, every place where a protocol call can fail, one struct for each type",
  why="No test runs emitted code; the library's tests have hand-written structs.",
  files=["compiler/cpp/src/generate/t_go_generator.cc", "tprotocol.go", "tcollection.go", "tlist.go", "tset.go", "tmap.go"], mech=[("generate_go_struct_reader/writer", "compiler/cpp/src/generate/t_go_generator.cc"), ("generate_deserialize_field/container", "compiler/cpp/src/generate/t_go_generator.cc"), ("generate_serialize_field/container", "compiler/cpp/src/generate/t_go_generator.cc"), ("SkipDefaultDepth", "tprotocol.go")],
  state=[("fields of the emitted struct", "the user's values", "compiler/cpp/src/generate/t_go_generator.cc")],
  observe=["calls made on the protocol", "values of the struct that was read", "errors of Read and Write"], technique="specialisation of the generator over clang's typed syntax tree, then path-sensitive abstract interpretation of the emitted code with symbolic field values",
  note="lists of two, sets and maps of one element"),
 dict(id="C33", title="Emitted constants and enums have the values the IDL gives",
  statement="A constant of any base type, enum, struct, typedef or container of these is, in the emitted package, a constant or an initialised variable with exactly the value the IDL gives, all digits of doubles and special characters of texts included. An emitted enum has a constant <Enum>_<name> for each of its names with the number the IDL gives or, without one, the number after the one before it (0 at first); its String is the text <Enum>_<name> (of the first name of that number), any other number's is <UNSET>; From<Enum>String of that text gives the constant back; Value gives the number.",
  over=["inputs"], quant="every constant and enum of these kinds; every number for the text of an enum",
  why="Only one emitted enum is compared with a golden file, and emitted code is not run by tests.",
  files=["compiler/cpp/src/generate/t_go_generator.cc"], mech=[("generate_const", "compiler/cpp/src/generate/t_go_generator.cc"), ("render_const_value", "compiler/cpp/src/generate/t_go_generator.cc"), ("generate_enum", "compiler/cpp/src/generate/t_go_generator.cc")],
  state=[("f_consts_", "statements that initialise constants", "compiler/cpp/src/generate/t_go_generator.cc")],
  observe=["values of emitted constants", "results of an emitted enum's functions"], technique="specialisation of the generator over clang's typed syntax tree, then abstract interpretation of the emitted initialisers and enum functions",
  note="one value per kind of constant; four enums"),
 dict(id="C34", title="A call through the emitted client and processor",
  statement="For a service emitted by the generator, a call of the client whose messages the processor serves reaches the handler's method of that name exactly once, with arguments equal to those given; the client returns the handler's result, or the declared exception the handler returned and no other; a handler's other error, and a call by a name the service does not have (for which no handler runs), are reported as errors by the processor and by the client; in all these cases the whole call and the whole reply have been read and the reply has been flushed once. A reply with another sequence id is reported as an error. A oneway call gets no reply, and the call after it works. When a single protocol call fails, the client reports an error if it was in writing the call or reading the reply, the processor if it was in reading the call or writing the reply, and a handler whose arguments could not be read is not called. The methods of a service that extends another include those inherited.",
  over=["inputs", "faults"], quant="all argument, result and exception values of the IDL types i32, string, bool, byte, i16, i64, double, binary, enum, struct, typedefs and containers of these, containers with up to two entries; every single failing protocol call",
  why="The emitted client and processor are never run by tests: one service is compared with a golden file.",
  files=["compiler/cpp/src/generate/t_go_generator.cc"], mech=[("generate_service_client", "compiler/cpp/src/generate/t_go_generator.cc"), ("generate_process_function", "compiler/cpp/src/generate/t_go_generator.cc"), ("generate_service_server", "compiler/cpp/src/generate/t_go_generator.cc"), ("generate_go_function_helpers", "compiler/cpp/src/generate/t_go_generator.cc")],
  state=[("SeqId", "number of the last call of an emitted client", "compiler/cpp/src/generate/t_go_generator.cc"), ("processorMap", "functions of an emitted processor by name", "compiler/cpp/src/generate/t_go_generator.cc")],
  observe=["calls and arguments of a handler", "results of an emitted client's methods", "errors of an emitted processor", "bytes left in the transport"], technique="specialisation of the generator over clang's typed syntax tree, then abstract interpretation of the emitted client, processor and a handler",
  note="one client and one call at a time; containers of up to two entries; failing calls for arguments of types i32, string, struct and list of i64 (the others' values are C32's); the reply's name and a reply without a result are not covered"),
]
