#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))
I = "include/bcl/"
TQ = I + "transparent_queue.h"; J = I + "Json.h"; JM = I + "JsonObjectMacros.h"; D = I + "Diagnostic.h"
RIO = I + "RedirectIO.h"; CS = "lib/Socket/CSocket/CSocket.cpp"; CSH = I + "CSocket.h"; SK = I + "Socket.h"
IC = I + "IntrusiveConnection.h"; CH = I + "Chain.h"; CE = I + "cell.h"; TG = I + "tagged.h"; TR = I + "trait.h"
U = I + "utility.h"; EQ = I + "Equation.h"; MA = I + "marray.h"; MF = I + "marray_f.h"

prop("Q01", "The transparent queue is FIFO for every history of operations",
 "For every history of insertions (push or emplace) and removals of non-null pointers, each removal returns the oldest pointer not yet removed, and the size, emptiness, first and last element always describe exactly the pointers inserted and not yet removed, in insertion order. Removing from an empty queue returns null and leaves it empty and usable. Growing past one element and shrinking back are unobservable.",
 ["histories"], "every history of push, emplace, pop, size, empty, front, back",
 "The tests push at most three elements, pop in one fixed pattern and never interleave growth, draining and reuse; emplace, front and back are never called.",
 [TQ], [("single-element storage converted to std::queue", TQ + ": push, emplace, pop"), ("two-state accessors", TQ + ": size, empty, front, back")],
 ["return values of pop/size/empty/front/back"], [("mIsSingle/mIsEmpty/union", "which storage holds the elements", TQ)])
prop("Q02", "Copies, moves, assignments and swaps of queues are independent and leak-free",
 "Copying a queue yields an equal queue that shares no state with the original, moving transfers all elements in order and leaves the source an empty reusable queue, and swapping exchanges the two contents, whatever the number of elements on either side, self-assignment included. After any history of such operations every queue still is FIFO over its own elements, and no memory is leaked, freed twice or used after being freed.",
 ["histories"], "every history over a pool of queues that mixes push/pop with copy/move construction, copy/move assignment, self-assignment, swap and destruction",
 "One test copies a queue once; assignment, move and swap are not executed by any test, and leaks are not observable to ctest.",
 [TQ], [("copy/move constructors and assignments", TQ), ("swap member and free function", TQ)], ["contents of every queue in the pool", "ASan/LSan reports"])
prop("Q03", "Queue comparison is equality and a lexicographic total order on contents",
 "Two queues are equal exactly when they hold the same pointers in the same order, and the ordering operators are the lexicographic order on those sequences, independently of the histories that built the two queues. In particular all six operators are mutually consistent.",
 ["inputs", "histories"], "every pair (and triple) of queues, each built by any history",
 "Five fixed pairs are compared by the tests with == and < only; queues that grew and shrank back are never compared.",
 [TQ], [("operator== and operator< over the four storage combinations", TQ), ("derived operators", TQ)], ["results of == != < > <= >="])

prop("J01", "JSON round trip: parsing what was serialized gives back an equal object",
 "For every value of a supported type (booleans, every supported integer type, finite floating point numbers, characters, strings of arbitrary bytes, vectors, sets, maps, multimaps, optionals of other types, non-null pointers to scalars, records described by named fields, and any nesting of them), parsing its serialized text into the same type succeeds, reports no error and yields an equal value. Serializing that result again gives the same text.",
 ["inputs"], "every value of every supported type and nesting",
 "No test serializes or parses anything; equality has to hold for all strings (quotes, backslashes, control and non-ASCII bytes), all numeric extremes and all shapes.",
 [J, JM, CE], [("Traits<...>::unparse / Traits<...>::parse pairs", J), ("string escape/unescape", J + ": Traits<std::string>"), ("cell functors for records", J + ": ParseCellFunctor, UnparseCellFunctor")],
 ["parsed value", "Parser::hasErrors()"])
prop("J02", "The JSON parser is total and memory-safe on arbitrary input",
 "For every byte string and every supported target type, parsing terminates and either reports success or reports failure with at least one recorded error; it never reads or writes out of bounds, uses uninitialized data, leaks memory, lets an exception escape or aborts. The parser can be used again after a failure and gives the same answer.",
 ["inputs"], "every byte string (arbitrary, truncated, mutated or deeply nested documents) and target type",
 "No test gives the parser any input; memory errors on malformed text need sanitizers to be seen at all.",
 [J, D], [("lexer bounds checks", J + ": Lexer::goToNext"), ("error paths release storage", J + ": Traits<Ty *>, Traits<char *>"), ("unescape", J + ": Traits<std::string>::unescape")],
 ["sanitizer reports", "result and errors() of Parser::parse"])
prop("J03", "Well-formed JSON is accepted with the value it denotes, and only that",
 "Every well-formed document of the shape of the target type is accepted and yields the denoted value, independently of insignificant white space (also before and after the document), of the order of fields, and of additional unknown fields of any shape. A document that is truncated, has a missing or surplus delimiter, trailing data, duplicate keys of a set, a map or an indexed array, or an integer the target type cannot represent is rejected.",
 ["inputs"], "every document produced by an independent encoder from a random value with random layout, and every single structural mutation of it",
 "No test parses a document; acceptance and rejection are claims about all documents.",
 [J], [("token walk with delimiter checks", J + ": Parser::traverse, Lexer::checkSpecial"), ("unknown fields are skipped", J + ": Traits<StaticMap>, Lexer::skipInternal"), ("numeric conversion", J + ": Traits<int> ... Traits<double>")],
 ["result of Parser::parse", "parsed value"])
prop("J04", "Serialized text is well-formed JSON that any JSON reader understands",
 "The text produced for every supported value is syntactically valid JSON as judged by an independent reader, and that reader recovers the same data: same structure, same keys, same numbers and same strings, control characters included. Quotes and backslashes in data never terminate or alter the surrounding text.",
 ["inputs"], "every value of every supported type",
 "No test serializes anything.",
 [J], [("Traits<...>::unparse", J), ("quoting and escaping", J + ": Traits<std::string>::escape; " + U + ": quote")], ["text returned by Parser::unparse"])
prop("J05", "A named JSON document is dispatched to exactly the object type it names",
 "When a document carries an identifying name, wherever it stands among the top-level fields, the parser returns an object of precisely the registered type with that name, filled with the document's fields; when the name is missing, unknown or not a string it returns nothing and reports it. Serializing any registered object through its base class adds its name, and parsing that text back finds the same type and equal contents.",
 ["inputs", "configurations"], "every set of registered object types, every document, position and key of the identifier",
 "No test uses object identification.",
 [J, JM], [("identifier search", J + ": Parser::parseName"), ("dispatch over the registered types", J + ": ParseFunctor, UnparseFunctor"), ("Object::is / as / getName", J)],
 ["type and fields of the returned object", "errors()"])
prop("J06", "Indexed JSON arrays fill every element exactly once or are rejected",
 "An array written as a sequence, or as an object whose keys are the indexes 0..n-1 in any order, puts every value at its own position in the resulting array. An object with a missing, repeated, negative, non-numeric or out-of-range index is rejected, so that no element of an accepted array is ever left uninitialized or overwritten.",
 ["inputs"], "every permutation, gap, repetition and spelling of the index keys, for vectors and pointer-based arrays of every element type",
 "No test parses arrays; the wrong acceptance of an index set is silent.",
 [J], [("counting keys before allocation", J + ": Parser::numberOfKeys"), ("element placement by key", J + ": Traits<std::vector>, Traits<Ty *>, Traits<char *>")],
 ["parsed array contents, with poisoned fresh memory"])
prop("J07", "Generated record types bind every field name to its own field",
 "For every number of fields supported by the record-definition macros, sub-object and top-level variants, each declared name accesses exactly its own field, positional construction assigns values in declaration order, and serialization and parsing use exactly the declared names. Writing one field never changes another.",
 ["inputs", "configurations"], "every supported field count, every field, values of mixed types",
 "No test or example defines a record with these macros; there are dozens of generated variants.",
 [JM, J], [("generated macros for each arity", JM), ("JSON_VALUE, JSON_ACCESS, JSON_OBJECT", J)], ["fields read through operator[]", "keys in serialized text"])

prop("J08", "The generator of the record-definition macros generates working declarations",
 "Running scripts/json_object_macro_gen.pl gives macros with which records of every number of fields, 1 to 30, sub-object and top-level, can be declared, including types which contain commas, and these records behave as those of the shipped header do: every declared name accesses exactly its own field, positional construction assigns values in declaration order, and serialization and parsing use exactly the declared names. So the header can be regenerated at any time.",
 ["inputs", "configurations"], "every generated variant, every field, values of mixed types",
 "Nothing runs the generator: neither the build nor the tests.",
 ["scripts/json_object_macro_gen.pl", J], [("generator", "scripts/json_object_macro_gen.pl")], ["fields read through operator[] with generated declarations", "keys in serialized text"])

prop("D01", "The diagnostic container keeps every message verbatim and in order",
 "Every message inserted into a diagnostic container is stored exactly as kind, code, position and formatted text dictate, whatever its length, and forward and backward iteration visit all stored messages in insertion order or its reverse. Clearing and swapping act on the messages and on the count of internal errors, and no memory is leaked or corrupted by any history of operations.",
 ["histories", "inputs"], "every history of insert, clear, swap and iteration with messages of any length and format arguments",
 "No test creates a container; heap misuse on release is invisible without a sanitizer.",
 [D], [("two-pass formatting into an owned buffer", D + ": insert"), ("iterator wrappers", D), ("clear/swap", D)], ["strings obtained by iteration", "ASan reports"])

prop("R01", "Redirected output is reported by diff exactly once it is written",
 "While an output descriptor is redirected to a file, the reported difference is exactly the bytes written to that descriptor since the remembered position, for every byte value, amount and chunking, and asking whether there is a difference agrees with it. Remembering the current position or resetting it to the start of the redirection moves the reference point accordingly, and reading differences never loses, repeats or reorders bytes written before or afterwards.",
 ["histories", "inputs"], "every history of writes of arbitrary bytes, diff, isDiff, setDiffPos and resetDiffPos, in rewrite and append mode",
 "No test uses redirection.",
 [RIO], [("shared file offset and remembered position", RIO + ": isDiff, diff, setDiffPos, resetDiffPos"), ("append mode start position", RIO + ": constructor")],
 ["result of diff()/isDiff()", "bytes of the target file"])
prop("R02", "Redirection objects own their files: no leak, no crash, failures are recorded",
 "Creating, moving, assigning and destroying redirection objects never leaks or closes a wrong file descriptor, and the redirected descriptor keeps writing to the target. If the target cannot be opened or duplicated, the object reports an error, which names the file and the reason given by the system, instead of redirecting or crashing; an object that redirects nothing reports neither changes nor errors.",
 ["histories", "fault_sequences"], "every history of construction (valid and failing), move, assignment, destruction and queries",
 "No test uses redirection; descriptor leaks and failure paths are invisible to the test suite.",
 [RIO], [("ownership of the FILE", RIO + ": destructor, move operations"), ("error recording", RIO + ": storeErrNo")], ["open descriptors in /proc/self/fd", "errors()"])

prop("J09", "Exhausted memory never makes JSON wrong or ends the program",
 "If any allocation fails while a value is parsed or serialized, the call reports this by an exception or as a failure; it never ends the program, never reports success with a value or a text other than those of a call without failures, and neither leaks memory nor corrupts it. Afterwards the same document is parsed with the same result as if nothing had failed.",
 ["inputs", "fault_sequences"], "every document and value of every supported type, every allocation that may fail, alone or with all later ones",
 "No test makes an allocation fail.",
 [J, JM], [("exceptions which leave the lexer, parser and callbacks", J + ": Parser, Lexer, Traits")], ["outcome of parse and unparse while allocations fail", "ASan reports", "heap balance"])

prop("J10", "The lexer gives the tokens of a JSON text at exact positions",
 "For every text, moving on yields its tokens in order: each has the right kind, including integral or not for numbers and which keyword, and exactly the positions of its first, last and following character; nothing but white space lies between tokens, and the end of the text or an unfinished string is reported as a failure with an error. Stored positions are restored, last stored first, together with everything known about the token, whatever conversions did in between; a set or reset position behaves as the text read from there. Checks tell the kind and record an error exactly if they fail. Skipping a compound value ends at its own closing bracket, and counting its keys returns to its start; both fail exactly for malformed values (counting also for keys that are not distinct indexes).",
 ["inputs", "histories"], "every text, every history of moves, stored, restored and set positions",
 "No test uses the lexer.",
 [J], [("tokens", J + ": Lexer::goToNext"), ("positions", J + ": Lexer::storePosition, restorePosition, setPosition, resetPosition"), ("nested values", J + ": Lexer::skipInternal, Parser::numberOfKeys")], ["start(), end(), next(), is(), isKeyword(), isIntegral()", "errors()"])
prop("J11", "User-defined conversions get every key and element once, in its place",
 "A conversion which is defined by the user for a type or for a single field of an object is called for exactly the keys and elements of the value, in the order of the text, with the position of the key including its quotes or the number of the element, while the lexer is at the first token of the value. It may convert nested values, look ahead and return, or try alternatives from a stored position. If a call fails, no further ones follow and parsing fails with an error; otherwise it succeeds exactly if the value is well-formed. Fields use the names their conversions give, and a field which is written as nothing is omitted. Such types work as elements, map values, fields and in registered objects.",
 ["inputs", "configurations"], "every document, every call that fails or throws, every nesting of user-defined and built-in conversions",
 "No test defines a conversion.",
 [J], [("traversal", J + ": Parser::traverse"), ("fields", J + ": CellTraits, detail::ParseCellFunctor, detail::UnparseCellFunctor")], ["calls of user-defined conversions", "converted values", "serialized text"])

prop("J12", "JSON is the same under every locale of the program",
 "Whatever locale the program or its user has chosen, for the C library or for C++ streams, serializing a value gives the same text, and parsing a document gives the same result, value and errors as in the locale a program starts with: numbers have a decimal point and no other separators, and only the white space and the letters of JSON are taken for such. So text written under one locale is read back equal under any other.",
 ["inputs", "configurations"], "every value and document, under every locale",
 "The tests do not change the locale.",
 [J], [("numbers", J + ": parseFloatingPoint, unparseFloatingPoint"), ("classes of characters", J + ": Lexer::goToNext")], ["texts and values under different locales", "tokens and errors under different locales"])

prop("W01", "The work grows in proportion to the data",
 "Serializing and parsing take a number of steps in proportion to the length of the text and the number of elements, up to a logarithm for ordered containers: whatever characters have to be escaped, how many keywords, unknown or repeated fields, nested levels, indexes in any order and white space there are, and wherever an error is. So are filling, emptying, copying and comparing queues, insertion of, iteration over and removal of messages, serving of requests however they are joined, and reading redirected output in pieces or at once. Steps to exchange or move a queue, a diagnostic container or an array, to access the ends of a queue or an element of an array and to change a chain do not depend on sizes.",
 ["inputs", "histories"], "every amount of data of every shape",
 "The tests use a few elements, for which even an exponential amount of work is not noticed.",
 [J, TQ, D, IC, RIO, CH, MA], [("tokens and escape sequences", J + ": Lexer::goToNext, Traits<std::string>"), ("queue", TQ), ("messages", D), ("received data", IC), ("difference of output", RIO)], ["executed basic blocks", "bytes moved, searched and allocated", "both at two sizes of data"])
prop("W02", "A thread which waits does no work",
 "A server which waits for clients, for data, for a free slot (when its limit is reached) or for a client to read, a listener which waits for the response to a request, a handler which waits for the next request and the end of a connection which waits for its handler sleep: they execute nothing until something happens. When it happens, the waiting thread goes on.",
 ["schedules", "histories"], "every state in which servers, connections and handlers wait, for any time and any number of them",
 "No test starts a server or a connection; a thread that polls all the time gives the same results.",
 [CS, IC], [("accept loop and limit", CS + ": startServer"), ("reception", CS + ": SocketImp::run"), ("waiting for requests and responses", IC + ": answer, connect")], ["executed basic blocks while nothing happens", "answers afterwards"])

prop("F01", "A container operation that runs out of memory changes nothing",
 "If an allocation fails while an element is pushed into a transparent queue, a queue is copied or assigned, a message is inserted into a diagnostic container, an equation is added to or solved in a binomial system, or a multidimensional array is created, the failure is reported (an insertion of a message may be counted as an internal error instead), and the container holds exactly what it held before: no element is lost, repeated or half added, reported sizes agree with the contents, later operations behave accordingly and no memory is leaked.",
 ["histories", "fault_sequences"], "every history of operations in which any allocations fail",
 "No test makes an allocation fail.",
 [TQ, D, EQ, MA], [("conversion of a queue to its second storage", TQ + ": push, emplace, copies"), ("owned messages", D + ": insert"), ("equations and their counters", EQ + ": push_back"), ("owned storage", MA)], ["contents and sizes after each failure", "ASan reports", "heap balance"])

prop("R03", "Redirected output survives exhausted memory",
 "If an allocation fails while a redirection object is created, the failed creation leaves no open descriptor, alone and together with a failing C library call. If it fails in a question about differences or while an error is recorded, output written later still arrives at the end of the target file, nothing that has been written is lost or overwritten, and the next questions are answered about the same remembered position as if the failed one had not been asked.",
 ["histories", "fault_sequences"], "every history of writes and questions in which any allocation fails, alone or together with a C library call",
 "No test uses redirection or makes an allocation fail.",
 [RIO], [("constructor", RIO), ("position restored after reading", RIO + ": diff"), ("remembered position", RIO + ": setDiffPos")], ["target file on disk", "open descriptors", "answers of diff and isDiff"])

prop("S01", "A server connection delivers the client's byte stream intact",
 "For every client and every byte sequence it sends, in any chunking and with any server buffer size, the receive listeners of that connection are called with consecutive pieces whose concatenation is exactly the bytes sent, zero bytes included, in order, and every listener sees the same pieces. Data of one connection is never delivered to another.",
 ["inputs", "schedules"], "every byte stream, chunking, buffer size and number of simultaneous clients",
 "No test starts a server.",
 [CS, SK], [("receive loop", CS + ": SocketImp::run"), ("receive listeners", CS + ": SocketImp::receive")], ["messages passed to receive listeners"])
prop("S02", "Everything a server sends reaches the client complete and in order",
 "Every message a server sends on an open connection, from its own event handlers, arrives at that connection's client completely, unaltered and in sending order, whatever its size, content and the speed at which the client reads. If the peer has gone, the failure is reported as a send error on that connection and neither the process nor any other connection is affected.",
 ["inputs", "schedules", "fault_sequences"], "every message size and content, slow and vanishing readers, kernel buffers of any size",
 "No test starts a server.",
 [CS], [("sendData", CS), ("SocketImp::send", CS)], ["bytes read by the client", "status events", "process survival"])
prop("S03", "The server's status events describe each connection's life correctly",
 "The server announces listening once with its real address before any connection, and for each connection reports acceptance first, then one receive event per delivered piece and one send event per successful send, then exactly one closing, after which nothing more happens on it; the events carry the client's and the server's real addresses. Closed listeners run exactly once per connection, after its last message, with true when the peer ended the connection in an orderly way and false when the peer reset it. If the connection can not be closed without an error, this error is reported once in place of the closing, and listeners get false.",
 ["histories", "schedules"], "every history of connects, sends, orderly and abortive disconnects by several clients",
 "No test starts a server or observes its events.",
 [CS, CSH, SK], [("status callbacks", CS + ": SocketImp::run, send, closeSocket; startServer"), ("closed listeners", CS + ": SocketImp::closeSocket")], ["recorded event log"])
prop("S04", "The server keeps serving whatever its clients do",
 "Whatever clients do (connect and disconnect at once, reset, disappear while being answered, reconnect in bursts), the server process does not crash or abort, keeps accepting and serving other clients, and releases descriptors and threads of finished connections. When the number of connections is limited, no more than that many are served at the same time and waiting clients are served once others finish; connections of other servers of the program do not count, and each server reports its own connections only.",
 ["schedules", "fault_sequences"], "every interleaving of connection arrivals, disconnects and resets; every connection limit",
 "No test starts a server; the failures depend on descriptor reuse, signals and timing.",
 [CS], [("accept loop and finished-connection collection", CS + ": startServer"), ("per-connection thread", CS)], ["process survival", "service of probe clients", "descriptor count", "maximum of simultaneously open connections"])
prop("S05", "A server that cannot start reports why and cleans up",
 "If the host name cannot be resolved, or the address cannot be bound, starting the server returns after reporting exactly the corresponding error with the requested address and port, and nothing remains open, even if the error occurs in the middle of the start or closing fails. A server that does start reports no error and listens at the requested address, even if other threads start other servers at the same time.",
 ["fault_sequences", "configurations", "schedules"], "every failing start-up step: unknown host, occupied port, foreign address, exhausted descriptors; every interleaving of several starts",
 "No test starts a server.",
 [CS, CSH], [("start-up steps", CS + ": startServer")], ["status events", "open descriptors"])

prop("S06", "Listeners of a connection may be added at any time and may fail",
 "A listener may be added at any moment before a connection is closed, by other listeners included: it receives all data which arrive later, or is called once at the end, respectively, and the listeners already added are called as before. If a listener of data or the function which creates a server throws an exception, exactly this connection ends: its client sees the end, each of its closed listeners is called once with a failure, its descriptor and thread are released. A closed listener which throws does not keep the others from being called. Other connections are not affected and the server accepts new ones.",
 ["histories", "schedules"], "every moment at which listeners are added, every listener and moment that fails, next to any other connections",
 "No test starts a server.",
 [CS, SK], [("lists of listeners", CS + ": SocketImp::receive, closed"), ("end of a connection", CS + ": SocketImp::run, startServer engine")], ["bytes delivered to each listener", "closed listeners", "open descriptors and threads"])
prop("S07", "A server survives lack of memory",
 "If an allocation fails while a client is accepted or served, only that connection is concerned: its client gets a beginning of what it has to get and then the end of the connection, instead of waiting for ever, an error and exactly one end of the connection are reported after its acceptance, each closed listener which has been set is called once, with a failure, nothing happens on the connection after its end, and its descriptor and thread are released. Other clients are served completely, and the server goes on accepting clients.",
 ["fault_sequences", "schedules"], "every allocation of the server and its connections that fails, alone or with all later ones, next to any other connections",
 "No test starts a server, no test lets an allocation fail.",
 [CS], [("connections are accepted and launched", CS + ": startServer"), ("connection is served and ended", CS + ": SocketImp::run, abort, closeSocket")], ["bytes got by each client", "status events", "calls of closed listeners", "open descriptors and threads"])

NS = "lib/Socket/NodeJSSocket/NodeJSSocket.cpp"
prop("N01", "A Node.js connection delivers bytes and sends text intact",
 "For every sequence of data events of a socket wrapped by the Node.js addon, each receive listener gets exactly the bytes of each event, in order, zero bytes and bytes which are not UTF-8 included. Every UTF-8 message sent by the server, zero characters included, is given to the JavaScript send function exactly once, in order and as the same text.",
 ["inputs", "histories"], "every sequence of chunks (of any size and content, views into larger buffers included) and of UTF-8 messages",
 "No test loads the addon; the build only checks that it compiles.",
 [NS, SK], [("receiveWrapper", NS), ("SocketImp::send", NS)], ["arguments of receive listeners", "arguments of the JavaScript send function"])
prop("N02", "Events of a Node.js connection reach exactly its own listeners",
 "startServer() runs one server for the connection; every data and close event is then delivered to each listener that server has set, once, in the order of registration and with the error flag of the event, and never to listeners or send functions of another connection. Wrong arguments of connect() and events of a wrong type are reported as a JavaScript TypeError, after which this and other connections go on working. A server built on the intrusive connection behaves as it does over any other socket.",
 ["histories", "inputs"], "every interleaving of events over any number of connections, listeners set at any time, and every wrong argument",
 "No test loads the addon.",
 [NS, SK, IC], [("Connection::newInstance, New, startServer", NS), ("SocketImp::receive, closed", NS)], ["calls of listeners", "JavaScript exceptions", "process exit"])
prop("N03", "A Node.js connection lives exactly as long as it is used",
 "Whenever the garbage collector runs, a connection whose server has been started stays usable until all listeners of its close event have been called, even if JavaScript code holds no reference to it. Afterwards the connection, its listeners, the JavaScript functions given to connect() and all received data are released; so is a connection which has not been started and is not referenced.",
 ["schedules", "histories"], "every point of a history at which a collection may run",
 "No test loads the addon or forces a collection; leaks are not observable to ctest.",
 [NS], [("ObjectWrap reference count", NS + ": startServer, New"), ("ownership of functions and listeners", NS + ": SocketImp")], ["ASan reports", "weak references", "live listeners", "heap balance"])
LG = I + "legacy/"
prop("L01", "Legacy texts: decimal notation of every integer and bounded copies",
 "Every integer is converted to exactly its decimal notation, in both kinds of characters. A text is copied with its terminator exactly if it fits into the given number of characters; otherwise the copying error is thrown, and nothing outside of the target is ever written.",
 ["inputs"], "every int; every text, including empty ones, and every size of the target, including zero",
 "No test includes the legacy headers.",
 [LG + "text.h"], [("conversion of numbers", LG + "text.h: ToTextAnsi, ToTextUnicode"), ("bounded copies", LG + "text.h: CopyAnsi, CopyUnicode, CopyString")], ["resulting texts", "thrown errors", "ASan/UBSan reports"])
prop("L02", "Legacy cell collections keep one value per key",
 "A static collection holds one independent value for each of its keys: reading a key gives the value last written to it, whatever was done to other keys, copies are independent, and traversal visits each cell exactly once in the order of declaration. Existence, reversal and merging of collections describe exactly their keys in order. Copying between collections transfers exactly the values of common keys, and clearing releases every owned object exactly once and touches nothing else.",
 ["inputs", "histories"], "every collection of keys and every history of reads, writes, traversals, copies and transfers",
 "No test includes the legacy headers; a header error is not even seen by compilation of the library.",
 [LG + "cell_legacy.h", LG + "cell_macros.h"], [("access by key", LG + "cell_legacy.h: Cell::Value, operator[]"), ("traversal", LG + "cell_legacy.h: Foreach, ForeachDefinition"), ("operations on lists of cells", LG + "cell_legacy.h: IsCellExist, ReverseCell, MergeCell"), ("transfers and owned objects", LG + "cell_legacy.h: CopyToCellFunctor, CopyFromCellFunctor, InitCellFunctor, ClearCellFunctor")], ["values of every cell", "order of visits", "number of live objects"])
prop("L03", "Legacy errors have unambiguous codes and complete descriptions",
 "Errors of an application and of all applications it uses are numbered without gaps or repetitions, in the order of their declaration, including nested errors. The type of an error is the most severe one of the types of its parts in the order given by the application, and its text consists of the acronym, type, number and descriptions of all parts. A thrown error is caught as itself, as the error it is a part of, as an error of its application and as a general one, always with the same data.",
 ["inputs"], "every tree of declared errors, every application which uses others, and every text of a failed cast",
 "No test includes the legacy headers.",
 [LG + "exception.h", LG + "declaration.h"], [("numbers of errors", LG + "exception.h: CodeOfError, CountOfErrors, CountOfAppErrors"), ("types and texts", LG + "exception.h: TypeOfError, BriefOfError, ErrorToText"), ("hierarchy of exceptions", LG + "exception.h: Exception, Error, TypeCastError")], ["codes", "texts", "which handlers catch an error"])
prop("L04", "Legacy values know whether they are defined",
 "A weak value is undefined until a value is assigned and after undef is assigned, and then holds exactly the assigned one. An undefined value is equal only to an undefined one and is ordered with none, otherwise all comparisons agree with those of the contents. A strong value is always defined: an attempt to give it an undefined one is refused by an error and changes nothing.",
 ["histories"], "every history of constructions, assignments and comparisons of weak values, strong values and plain ones",
 "No test includes the legacy headers.",
 [LG + "value.h"], [("representation of an undefined value", LG + "value.h"), ("comparison operators", LG + "value.h"), ("assignment to a strong value", LG + "value.h: Value")], ["results of comparisons", "contents", "thrown errors"], [("undefined mark", "whether a weak value is defined", LG + "value.h")])
prop("L05", "Legacy static trees and compile-time conditions are what they declare",
 "A static tree holds one independent value for each of its keys, accessible equally from the whole tree and from the subtree which declares it, and existence of a key is known exactly. Traversal visits the left subtree, the right one and the root, every node exactly once. Boolean conditions of types have exactly the values of the logical operators they denote.",
 ["inputs"], "every shape of a tree, every history of its values, and every combination of conditions",
 "No test includes the legacy headers; traversal and unbalanced trees are not even compiled.",
 [LG + "tree.h", U], [("access to a node by its key", LG + "tree.h: Node"), ("traversal", LG + "tree.h: Visit"), ("conditions", U + ": Not, And, Or, If, IsIdentical")], ["values of nodes", "order of visits", "values of conditions"])
prop("I01", "Every request gets exactly one response, in order",
 "For every sequence of requests, however they are joined or split at delimiters into received pieces, the handler sees every request exactly once, unchanged and in order, and the peer receives exactly one response per request in the same order, each followed by the delimiter. A request is answered before the next one is handed to the handler.",
 ["inputs", "schedules"], "every request sequence, grouping into pieces, delimiter and timing of handler and socket threads",
 "No test uses the connection class; ordering depends on two threads and two condition variables.",
 [IC], [("request splitting", IC + ": connect"), ("hand-over between socket thread and handler thread", IC + ": answer, connect")], ["requests seen by the handler", "messages passed to Socket::send"])
prop("I02", "After the handler ends, every further request is rejected exactly once",
 "Once the handler has given up the connection, each request that has not been answered, whether it arrives later or was already received, gets exactly one rejection response, and earlier responses are still delivered. When the socket is closed, a waiting handler is told that the connection is broken without being called again.",
 ["histories", "schedules"], "every point at which the handler stops or the socket closes relative to the request sequence",
 "No test uses the connection class.",
 [IC], [("rejection state", IC + ": destructor, connect"), ("close notification", IC + ": connect, answer")], ["messages passed to Socket::send", "return value of answer()"])
prop("I03", "Connection hand-over and teardown are free of races, deadlocks and leaks",
 "For every interleaving of the handler thread with the socket's receive and close notifications, including moves of the connection object, there is no data race, no use of freed memory, no deadlock or lost wake-up, and all shared state is released exactly once when both sides are done.",
 ["schedules"], "every interleaving of handler, receive and close",
 "Only a concurrent execution under a race detector can show it; no test runs two threads.",
 [IC], [("shared status guarded by two mutexes", IC + ": Status"), ("release of the shared status", IC + ": connect")], ["TSan, ASan and LSan reports", "watchdog"], )
prop("I04", "A failing request, socket or start never blocks a connection or loses requests",
 "If the evaluation of a request throws, exactly this request is rejected, the exception reaches the handler and the connection goes on with the next request. If a listener of the socket fails since a response can not be sent or memory is exhausted, the exception reaches the socket, no request is handed over truncated or invented, and after the socket is closed a waiting handler is told so. If a handler can not be started the caller is told by an exception and requests which are received nevertheless are rejected. Nothing waits forever and nothing is leaked in all these cases.",
 ["inputs", "faults", "schedules"], "every request at which an evaluation, a send, a start or an allocation fails, and every timing",
 "No test uses the connection class, none injects failures.",
 [IC], [("evaluation of a request", IC + ": answer"), ("start of a handler", IC + ": connect"), ("listeners", IC + ": connect")], ["messages passed to Socket::send", "requests seen by the handler", "exceptions", "heap balance", "watchdog"])

prop("M01", "Multidimensional arrays give each index tuple its own row-major element",
 "For every number of dimensions from two on and every extent, distinct valid index tuples refer to distinct elements, all of them inside the allocated storage, consecutive in row-major order, and a value stored through an index tuple is read back through it unchanged until it is overwritten. Both access notations behave alike. An array with more elements than can be addressed is not created, which is reported by an exception.",
 ["inputs", "configurations"], "every dimension count, extent vector and access history",
 "No test uses the arrays.",
 [MA, MF], [("offset table", MA + ": allocate; " + MF + ": allocate"), ("index to address", MA + ": operator[]; " + MF + ": operator()")], ["element addresses and values", "ASan reports"])
prop("M02", "Moving multidimensional arrays transfers the storage exactly once",
 "Moving an array by construction or assignment gives the target the source's extents and elements, releases what the target held before, and leaves a source that can be destroyed or assigned again; self-move keeps the array usable. No history of moves leaks, double-frees or touches freed storage.",
 ["histories"], "every history of move construction, move assignment and destruction over a pool of arrays",
 "No test uses the arrays; leaks are invisible to ctest.",
 [MA, MF], [("move operations", MA + "; " + MF)], ["element values after moves", "instance counts of elements", "ASan/LSan reports"])

prop("X01", "Distinct objects do not interfere between threads; reading is not writing",
 "Threads which use different objects of this library (queues, diagnostics, redirected descriptors, arrays, chains, trait sets, cells, tagged tuples, type lists, equations, pointers and text utilities) do not affect each other: every property of a single object holds in each thread at the same time, without any synchronization by the user, from the first use on. Any number of threads may read and copy one object which none of them changes, and all of them see the same contents. There is no data race in either case.",
 ["schedules", "histories"], "every history of operations on objects of its own in each of several threads at once, and every set of reading operations on a common object, under every schedule",
 "The tests use one thread.",
 [TQ, D, TR, CE, CH, EQ, MA, RIO, U], [("no state besides that of an object", TQ + "; " + D + ": insert; " + TR + "; " + U + ": bitPrint"), ("reading operations are const", D + ": begin, end; " + TQ + ": front, back, size; " + TR + ": is, for_each")], ["results of every operation in each thread", "unordered accesses reported by ThreadSanitizer"])
prop("X02", "JSON may be parsed and serialized by several threads at once",
 "Threads which parse documents or serialize objects do not affect each other, even if they parse one common document or serialize one common object which none of them changes: each of them gets what it would get alone, the result, the text and the errors, without any synchronization by the user, from the first use on. There is no data race.",
 ["schedules", "inputs"], "every set of documents, accepted or not, and objects of all supported types used by several threads at once, under every schedule",
 "The tests use one thread.",
 [J, JM, D], [("no state besides that of a parser", J + ": Lexer, Parser"), ("conversions without common state", J + ": Traits; " + JM)], ["values, texts and errors in each thread", "unordered accesses reported by ThreadSanitizer"])

prop("H01", "Every header stands alone, and all translation units mean the same by it",
 "Each header of this library can be included alone, first, more than once and in any order with the others (headers of the legacy part if it is enabled), and in any number of translation units of one program. Entities with one identity have it in the whole program: a cell, attribute or trait is the same in each unit, different attributes have different identities even if they have equal names and types, and objects have the same layout. So an object (a queue, diagnostics, cells, a trait set, a chain, an array, a JSON object, a lexer, a connection, a redirection) made in one unit may be changed, read and destroyed in others, also if these were made by another compiler, with or without assertions, and behaves as if one unit did all of it.",
 ["inputs", "histories"], "every order of inclusion, every set of translation units, and every history of an object handed over between them",
 "The tests are programs of one unit which use one header or two.",
 [CE, J, JM, TR, TQ, D, RIO, U], [("inclusion guards and included headers", "include/bcl/*.h"), ("identity of attributes", CE + ": BASE_ATTR_DEF"), ("no definitions but inline ones", CE + "; " + U)], ["compilation and linking of the units", "contents of objects handed over between units", "addresses and sizes of entities in each unit"])

prop("C01", "Chains stay doubly linked under every history of splice and merge",
 "After every history of splicing single nodes and merging chains, the successor and predecessor relations are exact inverses of each other, no cycle appears, and each operation changes only the links it is documented to change: splicing takes one node out of its chain and inserts it right after (before) the target keeping the target's other neighbours, merging attaches the chain starting (ending) at the given node. Passing null cuts the chain at the target.",
 ["histories"], "every history of the four link operations over a pool of nodes, also with several independent chains per node",
 "No test uses chains.",
 [CH], [("spliceNext/splicePrev/mergeNext/mergePrev", CH)], ["links read through ChainTraits"])
prop("C02", "Chain iterators visit exactly the nodes of the chain in order",
 "Iterating from any node forward (backward) visits exactly the nodes reachable by successor (predecessor) links, in order, and ends at the end of the chain; stepping forward and back returns to the same node, prefix and postfix forms agree with their definitions, and comparisons between iterators and nodes are exact. Modifying the chain through a mutable iterator has the effect of the same operation on its node.",
 ["histories", "inputs"], "every chain and every walk over it",
 "No test uses chains or their iterators.",
 [CH], [("ChainIterator, ChainIteratorC", CH)], ["nodes visited"])

prop("T01", "Setting a trait unsets exactly the traits that conflict with it",
 "For every declaration of traits and every history of set and unset operations, the traits reported as set are exactly those that follow from the declared rules: setting a trait keeps all traits compatible with it and removes exactly those that are alternatives to it (traits set by one operation do not conflict with each other), and unsetting removes exactly the named traits or groups. Queries, visits of all, of conflicting and of group members, and printed keys and masks agree with that set; keys of different traits never overlap.",
 ["histories", "configurations"], "every set/unset history over several trait declarations (single traits, alternatives, unions, mixes)",
 "No test uses traits.",
 [TR], [("bit keys, masks and conflict lists", TR + ": TraitDescriptor, TraitConflict, trait::is_conflict")], ["is/is_any/for_each results", "printed bits"])
prop("T02", "Trait sets own their descriptions: none lost, leaked or freed twice",
 "For every history of operations on trait sets, each attached description is returned for its own trait until the trait is unset, replaced, displaced by a conflicting trait, released or the set is destroyed or overwritten, and it is destroyed exactly once unless released to the caller. Moving a set transfers all descriptions and leaves none in the source; asking for or releasing a description that was never attached yields null.",
 ["histories"], "every history of set (with and without description), get, release, unset, unset_all, descriptor assignment and moves",
 "No test uses trait sets; ownership errors need instance counting and sanitizers.",
 [TR], [("map of descriptions keyed by trait", TR + ": TraitSet"), ("conflict resolver", TR + ": TraitSet::ConflictsResolver")], ["live instances of descriptions", "get<>() results", "ASan/LSan reports"])
prop("T03", "Trait transfer functions and trait maps act on exactly the common traits",
 "Copying set traits from one trait collection into another sets in the target exactly the traits that are set in the source and known to the target; updating additionally unsets the common traits that are not set in the source, and other traits change only if they conflict. A map over traits holds one independent value per trait, visits each trait exactly once, and distributing a trait set into the map inserts it under exactly the traits that are set.",
 ["histories", "configurations"], "every state of source and target for several pairs of declarations",
 "No test uses traits.",
 [TR], [("trait::set, trait::update, trait::unset", TR), ("StaticTraitMap, TraitMapConstructor", TR)], ["resulting trait states and map contents"])

prop("P01", "Static maps give each key its own value and visit every cell once in order",
 "In a static map every key accesses its own independent value, constructor arguments initialize the cells in declaration order, and visiting the cells or keys calls the function exactly once per cell in declaration order, for maps declared by keys and for maps declared by types. Copies of a map are independent.",
 ["inputs", "configurations"], "every list of keys and values, every access history",
 "The two example programs use two cells each and are not tests.",
 [CE], [("recursive cell inheritance", CE + ": StaticMap"), ("type-keyed maps", CE + ": StaticTypeMap, StaticMapConstructor")], ["values seen through value<>, operator[] and for_each"])
prop("P02", "Cell functors transfer data between maps for exactly the common keys",
 "Copying or moving between two static maps, in either direction, transfers the value of every key the two maps have in common and changes nothing else; a move leaves the source value moved-from and never copies it. Initializing sets exactly the pointer cells to null, and clearing releases exactly the objects they own.",
 ["configurations", "inputs"], "every pair of key lists (disjoint, overlapping, equal, reordered) and values, move-only values included",
 "No test or example uses these functors.",
 [CE], [("CopyToCellFunctor, CopyFromCellFunctor, MoveToCellFunctor, MoveFromCellFunctor", CE), ("InitCellFunctor, ClearCellFunctor", CE)], ["values in both maps", "copy/move counters", "live instances"])
prop("P03", "Tagged pairs and tuples give each tag, alias included, its own element",
 "In a tagged pair or tuple each tag and each of its aliases accesses exactly the element it was declared for, also when several elements have the same type, and agrees with positional access; construction and assignment follow declaration order. Visiting a tuple calls the function once per element in order with the right tag, and type-level queries (size, index of a tag, tag at an index, element type) agree with that.",
 ["configurations", "inputs"], "every declaration of tags and aliases and every values",
 "No test uses tagged types.",
 [TG, I + "tuple_utils.h", I + "convertible_pair.h"], [("tag lookup", TG + ": tags::get, index_of"), ("tagged_pair, tagged_tuple, for_each", TG), ("plain tuple helpers and convertible pair", I + "tuple_utils.h; " + I + "convertible_pair.h")], ["elements read by tag and by position"])
prop("P04", "Type-list operations compute the sets and orders they are named after",
 "Index, size, membership, merge, intersection, duplicate removal (which keeps the last of equal types), removal, forwarding, reversal and merging of cell collections yield exactly the list of types that the corresponding operation on sequences yields, for every list, the empty list included.",
 ["configurations"], "every pair of type lists over a small alphabet of types",
 "No test instantiates these templates.",
 [CE, U], [("TypeList, MergeTypeLists, IntersectTypeLists, RemoveDuplicate, RemoveFromTypeList", CE), ("ReverseCell, MergeCell, IsCellExist", CE), ("index_of, is_contained, size_of", U)], ["type lists printed by visiting them"])

prop("E01", "A solved binomial system describes exactly the integer solutions",
 "For every system of binomial affine equations that has integer solutions, solving it succeeds for every equation, and for every choice of the parameters the reported general solution satisfies all equations; conversely every integer solution of the equations is obtained for some choice of the parameters. If an equation has no integer solution given the previous ones and solvability is not assumed, solving stops and reports how many equations were solved before it.",
 ["inputs"], "every system within machine integer range: chains, stars, forests and cycles of variables, any coefficients and right-hand sides",
 "No test solves an equation.",
 [EQ], [("extended Euclid and substitution", EQ + ": BinomialSystem::solve, euclidGCD")], ["getSolution()", "original equations evaluated on the solution"])
prop("E02", "Instantiation keeps exactly the equations whose guards hold",
 "After instantiation, the instantiated equations are exactly those whose guards are all true and whose inverse guards are all false, each with its computable terms added to the right-hand side exactly once, and the others are left out of solving and of the reported instantiated range. The counts reported agree, and every equation keeps its own guards and computable terms.",
 ["inputs"], "every set of equations with guards, inverse guards and computable terms, every valuation",
 "No test uses equations.",
 [EQ], [("guard evaluation and partition", EQ + ": BinomialSystem::instantiate"), ("Row guards and computed monomials", EQ + ": Row")], ["instantiated_begin..end, instantiated_size", "guard_size, inverse_size, computed_size"])
prop("E03", "The extended Euclid function returns the gcd and valid Bezout coefficients",
 "For every pair of integers whose magnitudes are representable, the function returns their non-negative greatest common divisor together with coefficients that combine the two arguments to it. Neither the coefficients nor intermediate computations exceed the range of the type: each coefficient is at most the magnitude of the other argument divided by the divisor, or one.",
 ["inputs"], "every pair of integers, negative, zero and extreme included, for every integer type",
 "No test calls it.",
 [EQ], [("euclidGCD", EQ)], ["returned triple", "UBSan overflow reports"])

prop("U01", "Digit, mask and bit helpers agree with their arithmetic definition",
 "For every value (a non-zero one to count trailing zeros) and every base from two on, the helpers that count digits and trailing zero digits, build masks of n ones, print bits and read binary literals return what the positional number system defines, up to the full width of the type.",
 ["inputs"], "every value, base, mask width and literal up to 64 digits",
 "No test calls them.",
 [U], [("numberOfDigits, numberOfLessZeros, unitMask, bitPrint, binary literal", U)], ["returned values and printed bits"])
prop("U02", "Shrinking a pair succeeds only when it can be restored exactly",
 "Whenever packing a pair of values into one smaller value reports success, restoring from the packed value yields exactly the original pair; packing reports failure exactly when one of the values does not fit into its half. No memory outside the values is read or written.",
 ["inputs"], "every pair of values over combinations of integer types and packed sizes",
 "No test calls it.",
 [U], [("shrinkPair, restoreShrinkedPair", U)], ["restored pair", "ASan reports"])
prop("U03", "Value wrappers keep their registered pointer aimed at the live value",
 "A wrapped value's registered pointer always points to the current location of that value and the value is preserved, through every history of moves, for example by container growth, insertion and erasure. Helpers that construct objects from arguments or tuples of them, apply functions to tuples and packs, swap memory of two objects, or adapt iterators with attached data preserve all values and deliver each exactly once, in order.",
 ["histories"], "every history of container operations that relocate wrapped values; every argument tuple and iterator range",
 "No test uses these helpers.",
 [I + "ValuePtrWrapper.h", U, I + "IteratorDataAdaptor.h"], [("move operations updating the known pointer", I + "ValuePtrWrapper.h"), ("make_unique_piecewise, swapMemory, staticForeach, inserters", U), ("IteratorDataAdaptor", I + "IteratorDataAdaptor.h")], ["registered pointers and values"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
