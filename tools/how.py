HOW = {
"C01": "Each Write method is interpreted with symbolic arguments on a transport whose Write is an event that accepts everything; the concatenation of the payloads must equal the layout term (e.g. be32(len(s)) ++ s) and the error must be nil on every path. Oracle: the Thrift binary protocol specification, written down in c_binary.go. Unbounded in values and lengths; no loops.",
"C02": "Reads are interpreted against a byte source of symbolic bytes; per case (version word negative or not, version matching, strict or not, length negative or not) the result must be the inverse of the layout and the bytes consumed exactly those of the item.",
"C03": "As C01/C02 for the compact scalars. Varints: the loop is unrolled for every length 1..10, each as its own case with the range of values that has this length; the reader is shown a symbolic ten-byte prefix. Zigzag identities are decided in the bit-vector normal form of the term domain.",
"C04": "Tables are decided exhaustively for all 256 type codes both ways; headers case by case on the thresholds (size<15, delta 1..15, empty map), with symbolic ids and sizes in between; hostile headers (id, version, negative sizes) must be errors.",
"C05": "Call sequences (`play`) on one protocol object with symbolic field ids: struct in struct, struct after struct, three levels, boolean fields mixed with bare booleans; bytes on the wire must be what the flat specification says for the innermost struct's last id. Bound: the listed sequences; deeper nesting repeats the same push and pop.",
"C06": "For every TProtocol method of both protocols and every transport operation on every path: when that operation fails with an unknown error, the error returned must be non-nil and made from it (dataflow from the event's error to the result), and no path may end in a panic.",
"C07": "Every constructor and conversion with an unknown error argument, split by dynamic type (nil, own exception, io.EOF, base64.CorruptInputError, other): type, message and nil-ness of the result as terms; message constructions must contain the given parts, field ids as decimal numbers.",
"C08": "ReadAll of every transport with a Read that returns any n within its contract and any error: the sub-slice asked for each round must be buf[total:], and results must match at every exit. Three rounds exactly, later ones with the running total unknown but related to the slice.",
"C09": "Sequences of up to three calls on the framed transport over a symbolic inner transport; header and payload as terms; the frame size is an unknown 32-bit number and buffers have unknown lengths, so frame boundaries fall anywhere.",
"C10": "Skip is interpreted per type with its recursive call opaque (an induction hypothesis: skips one value one level down or fails); events on the protocol must be exactly the begin/element/end script. Element loops: three exact rounds then widened with the bound compared to the declared size.",
"C11": "Write and Read against an abstract protocol whose operations are events; fields arrive in any order with unknown id and type; every failing operation ends the call with its error.",
"C12": "Constructors' field flow (which argument reaches which role) and Serve/processRequest over abstract server transport, factories and processor; goroutine bodies and defers are followed; Stop by another goroutine may change the flag at every synchronisation operation; panics of Process unwind through defers.",
"C13": "Lockset over the abstract paths of every entry method of the server and server-transport types (shared fields of the receiver must be atomic or share a lock), lock typestate (released on all exits, not retaken, not held at the blocking Accept), plus listener typestate over the listed sequences.",
"C14": "Typestate of the connection over all sequences up to five calls from every constructor (net.Dial*, Conn methods are events with arbitrary results); every Read/Write of the connection must be preceded in the same call by the matching Set*Deadline with the term now+timeout or the zero time.",
"C15": "HTTP client operations are events; request bodies are compared as byte ropes with what was written since the previous Flush; response bodies carry a typestate (obtained, closed once).",
"C16": "Streams of unknown types with and without Close/Flush; bufio and bytes.Buffer are modelled as byte queues; sequences of calls from every constructor.",
"C17": "Every GetProtocol/GetTransport/GetProcessor is interpreted and the object made is compared structurally with the one the package's constructor makes with the factory's settings; settings are the fields of the factory found by type.",
"C18": "A machine over the places of JSON items gives the text expected of each call as a term (symbols for names, ids, sizes and values). Every operation is placed in every kind of place, every wire type as field, element, key and value type, successive messages, and one chain of 60 nested contexts; the bytes events of each call must be the term.",
"C19": "The same documents as input text, in six spellings with symbolic digits, characters, escapes and white space, and with null. bufio.Reader is modelled as a sequence term of which an unknown part is buffered, so all splits into reads are covered at once; a read past the item is an event that fails the obligation. Values returned are compared with the terms the text denotes, and the text left must be empty at the end.",
"C20": "C19's documents with one fault: for each document every prefix, each structural byte replaced by a symbol different from it, and tables of invalid forms per value kind. On every path some call must return a non-nil error (or end the fields where one was expected); panics of index, slice and nil dereference are followed as outcomes and fail.",
"C21": "C18's and C19's documents over a transport of which each operation may fail; every path on which one did must return a non-nil error (dataflow from the failing event to the result).",
"C22": "CoerceData is interpreted once per pair of thrift type and dynamic Go type with a symbolic value; the outcome must be the term a conversion table gives (Go conversion, parsed number of the text as an uninterpreted function, decimal text, truth). One more run per thrift type takes a value of unknown type and looks at the dynamic type that comes out.",
"C23": "Two symbolic values with an assumed order per type; containers and structs are built by the public calls from constants. Channels are queues and a goroutine that feeds one is interpreted where it starts (a sender and a receiver that share nothing else have one result under every schedule); a sender left waiting at the end is a leak; finite Go maps are iterated in every order, one path each, so a result that depends on the order shows as two paths that disagree.",
"C24": "Histories of public calls on a list whose elements are symbols, next to the same edits on a slice of names; observed by drivers written in Go against the public interface and interpreted with the library. Coercion of what is put in is compared with what CoerceData gives for the same value on the same path.",
"C25": "Histories of Add and Remove over three symbols under each of the 13 weak orders (all relations between them are assumed, so every comparison in the code is decided), next to a model set of ranks.",
"C26": "Histories of Set over three symbolic keys under each of the 13 weak orders next to a model map of ranks; Go maps are finite lists of symbolic keys, looked up by decided equality and iterated in every order; package sort is interpreted as insertion sort calling the library's less function.",
"C27": "Constructors, accessors, lookups and comparisons over symbolic parts; for lookups the asked id or name is assumed equal to that of one field or of none.",
"C28": "Constructors and views of Numeric over a symbol; classification methods for each of 256 codes against a table; TypeFromValue followed by CoerceData per Go kind.",
"C29": "Points-to analysis of all functions with two contexts: what runs while the package is initialised and everything after, so that memory made then is told apart from memory made by the same statements later. Every store, map update, append with room, copy, delete and call that writes through an argument or receiver is looked up; a target made during initialisation is a violation. Objects that reach user code come back as arguments and receivers of every function they fit. Locks, sync.Once and concurrency-safe types are let through.",
"C30": "The same analysis with an object per byte slice parameter of every exported method and per receiver type: it must not be stored in what outlives the call (objects that escape, variables, channels, goroutines), nor be written to by methods that are not there to fill it (append in place included); a slice a read method returns must not be held by an escaping object.",
"C31": "clang's JSON syntax tree of t_go_generator.cc (parsed against a stub of the compiler's parse-tree headers, since the compiler's other sources are not in the repository) is evaluated on an IDL program built in memory; each program is one constant input to the templates, so this is specialisation of the generator. What it emits is parsed and type-checked by go/types against the library's own types as they are in /repo now. About 90 programs per place: fields, service, defaults, constant for each of the types, then names, ids, inheritance, empty declarations. A C++ construct the evaluator does not know turns that program into a note in the evidence, never into a violation.",
"C32": "The emitted struct and a driver that makes one from parameters, writes it to a tape (a protocol of a page of Go that records each call and gives it back only to the matching read) and reads it into a new struct are interpreted abstractly together with the library; parameters are symbols, every path is followed. The recorded calls are compared with the calls computed from the IDL type; what is read with the symbols; then one call after another, of the writer and of the reader, fails and the result must be an error.",
"C33": "The emitted initialisers and a driver that lists the parts of the constant are interpreted together with the library's collections and compared with the value of the IDL; enums likewise, and their text for a symbolic number.",
"C34": "The emitted client, processor and structs and a driver (a handler that records, protocols that give back what was written and may fail at the k-th call, a processor that serves when the client flushes) are interpreted together with the library's collections on symbolic arguments, results and exceptions, for a method with a result, one with declared exceptions, a void one and a oneway one.",
}
