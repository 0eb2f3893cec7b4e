def m(name, where):
    return {"name": name, "where": where}

NA = {}
STUB = "Trusts the stand-ins of the two unavailable modules (stubs/), the explorer in mc/ and the harness oracle. "

prop("C01", "How the network splits the bytes never changes what the server does",
  "For every byte stream a client may send, cutting it into reads at any positions, down to single bytes, or putting several requests into one read, makes the server hand the same sequence of requests (method, path, query, protocol, headers, body bytes) to the application and write the same bytes back as when the stream arrives at once.",
  ["inputs", "histories"], "all byte streams (well-formed or not) times all ways to cut them into reads",
  "The tests feed a handful of requests with a few fixed split sizes; the parser keeps several resumable states, and every one of them has its own boundary behaviour.",
  ["internal/protocol/http1/parser.go", "internal/protocol/http1/body.go", "internal/protocol/http1/suit.go", "internal/tcp/client.go"],
  [m("resumable parser states", "internal/protocol/http1/parser.go Parse"), m("putting back what was not consumed", "internal/tcp/client.go Unread")],
  "exhaustive enumeration of read splits on the real server, differential oracle", STUB + "Streams come from a grammar of interesting requests; all one- and two-cut splits, and the single-byte split, are enumerated.")

prop("C02", "A well-formed request reaches the handler exactly as it was sent",
  "For every well-formed HTTP/1.0 or HTTP/1.1 request, alone or pipelined, the handler sees exactly the method, the percent-decoded path, the raw query, the protocol, all headers (Content-Length apart, which is shown as the derived content length only) in their order with their values, and the derived fields (content length, content type, connection, transfer and content encodings) that the bytes denote, and it is called exactly once per request in order.",
  ["inputs", "histories"], "all well-formed requests of the grammar and pipelines of them",
  "The parser tests fix a dozen requests; fidelity is a statement about every combination of method, target, version, line ending, header spelling and body.",
  ["internal/protocol/http1/parser.go", "http/request.go", "http/method/method.go", "http/proto/proto.go", "internal/keyvalue/storage.go"],
  [m("request line and header state machine", "internal/protocol/http1/parser.go Parse"), m("case-insensitive recognition of known headers", "internal/protocol/http1/parser.go headerValue")],
  "bounded exhaustive enumeration of generated requests on the real server against the generating model", STUB)

prop("C03", "Malformed input never crashes the server, reaches a handler or lingers",
  "Whatever bytes arrive, the server neither panics nor hangs: a request with a malformed head is answered with an error response of the matching class (or, if cut short, with none) and never reaches the application's request handler; a malformed or truncated body is reported to the handler as an error and never taken for a complete one. Nothing behind malformed input is served on the connection. After the client ends or an error occurs the connection is given up, and the application is told.",
  ["inputs", "fault_sequences"], "all byte strings over an alphabet of the protocol's significant bytes up to a length, and all single-byte corruptions of valid requests",
  "Tests have a short list of malformed requests; a crash needs an unusual but short combination.",
  ["internal/protocol/http1/parser.go", "internal/protocol/http1/suit.go", "internal/protocol/http1/body.go"],
  [m("error states of the parser", "internal/protocol/http1/parser.go"), m("error response and leaving the loop", "internal/protocol/http1/suit.go serve")],
  "exhaustive enumeration of byte strings and corruptions on the real server", STUB)

prop("C04", "Configured limits hold exactly, for every request of a connection",
  "A request within every configured limit (request line, number of headers, length of a key and of a value, total space of keys and of values, number of encodings, body size) is served, and one that exceeds a limit is refused with the status of that limit, before it reaches the handler or, for bodies, instead of delivering more than the limit. The verdict depends neither on how the bytes are split nor on earlier requests of the connection.",
  ["inputs", "configurations", "histories"], "all sizes around each limit, all small limits, all positions in a keep-alive sequence",
  "The tests check one oversize example per limit, in one split and on the first request.",
  ["internal/protocol/http1/parser.go", "internal/protocol/http1/body.go", "config/config.go"],
  [m("size-limited buffers", "internal/protocol/http1/parser.go"), m("body size accounting", "internal/protocol/http1/body.go")],
  "bounded exhaustive enumeration of sizes, limits and histories on the real server", STUB)

prop("C05", "A request body is delivered exactly, through every way of reading it",
  "Whatever combination of the body accessors a handler uses, in any order and with any buffer sizes, it obtains exactly the body's bytes in order, then the end of the body (asking for the whole body again gives the same bytes); bodies framed by Content-Length and by chunks behave the same. What the handler does not read is discarded, so the next request of the connection starts exactly behind the body.",
  ["inputs", "histories"], "all bodies, framings, splits and accessor sequences up to a bound",
  "Tests read whole bodies by one accessor at a time.",
  ["internal/protocol/http1/body.go", "internal/stash/reader.go", "internal/tcp/client.go", "http/request.go"],
  [m("Content-Length and chunked readers", "internal/protocol/http1/body.go"), m("discarding the rest", "http/request.go Clear")],
  "exhaustive enumeration of accessor sequences over framings and splits on the real server", STUB)

prop("C06", "Requests on one connection do not influence each other",
  "The handling of a request on a keep-alive connection (what the handler sees and the response bytes) is the same as if the request had arrived as the first one on a fresh connection, whatever requests and responses preceded it. No header, parameter, body byte, cookie, context value, status, default header or connection attribute carries over.",
  ["histories"], "all sequences of requests and handler behaviours up to a depth",
  "Tests exercise keep-alive with identical requests; leaks need a specific predecessor.",
  ["http/request.go", "http/response.go", "internal/response/fields.go", "internal/protocol/http1/serializer.go", "internal/protocol/http1/parser.go", "internal/protocol/http1/body.go"],
  [m("clearing the request", "http/request.go Clear"), m("clearing the response", "internal/response/fields.go Clear"), m("clearing the serializer and its default headers", "internal/protocol/http1/serializer.go clear")],
  "exhaustive enumeration of request/handler histories on the real server, differential oracle (fresh connection)", STUB)

prop("C07", "Every response is well-formed and says exactly what the handler built",
  "Every response the server writes is one well-formed HTTP message: protocol, code and reason phrase, each header the handler set with its value and in order, one Set-Cookie line per cookie with its attributes, each default header unless the handler overrode it, and a Content-Length equal to the body that follows (handlers which write the framing headers themselves apart). The answer to a HEAD request is the one to GET without the body.",
  ["inputs", "histories"], "all combinations of codes, statuses, headers, default headers, cookies, bodies and methods within the bound",
  "The serializer tests compare some rendered responses.",
  ["internal/protocol/http1/serializer.go", "http/response.go", "http/status/codes.go", "http/cookie/cookie.go"],
  [m("rendering", "internal/protocol/http1/serializer.go Write"), m("response builder", "http/response.go")],
  "bounded exhaustive enumeration of built responses on the real server, parsed back by an independent parser", STUB)

prop("C08", "Connections persist exactly when they should, answering in order",
  "Each request gets exactly one response, in order of the requests. After it the connection is kept open for HTTP/1.1 unless the client asked to close it and for HTTP/1.0 only if the client asked to keep it (and not to close it), whatever kind of response was sent, unless its end is the end of a body without a known length; otherwise nothing more is read or served.",
  ["histories", "inputs"], "all pipelines of requests over versions, Connection values, methods and response kinds",
  "Tests check one keep-alive and one close case.",
  ["internal/protocol/http1/suit.go", "internal/protocol/http1/serializer.go"],
  [m("keep-alive decision", "internal/protocol/http1/serializer.go isKeepAlive"), m("serving loop", "internal/protocol/http1/suit.go serve")],
  "exhaustive enumeration of pipelines on the real server", STUB)

prop("C09", "A streamed response carries the stream's bytes exactly and releases it",
  "A response made of a reader is sent with exactly the reader's bytes, however the reader hands them out (short reads, data together with the end, empty reads): with the announced length if a size is given, in chunks otherwise, and up to the end of the connection for HTTP/1.0, which has no chunks. If the reader or the connection fails, the connection is given up and the client cannot take a response with a length or chunks for complete; the reader is closed exactly once in every case.",
  ["inputs", "fault_sequences"], "all reader behaviours, sizes, buffer sizes and write failures within the bound",
  "Tests stream from well-behaved in-memory readers only.",
  ["internal/protocol/http1/serializer.go", "internal/types/attachment.go", "http/response.go"],
  [m("plain and chunked streaming", "internal/protocol/http1/serializer.go sendAttachment"), m("closing", "internal/types/attachment.go Close")],
  "exhaustive fault and short-read enumeration on the real server", STUB)

prop("C10", "Percent-decoding is exact for every input",
  "Decoding a URI replaces each percent sign followed by two hexadecimal digits, in either case, by the byte they denote and leaves every other byte as it is; input with any other percent sign is refused as a bad request. The result does not depend on whether decoding happens in place, into a given buffer or into a new one, and memory around the input is not touched.",
  ["inputs"], "all byte strings; all pairs of bytes behind a percent sign, at every position",
  "The five examples in the tests use lower-case valid escapes only; nothing but an enumeration covers all 65536 pairs and boundary positions.",
  ["internal/uridecode/decoder.go", "internal/hexconv/hexconv.go"],
  [m("escape scanning and validation", "internal/uridecode/decoder.go Decode"), m("digit table", "internal/hexconv/hexconv.go")],
  "bounded exhaustive enumeration of inputs against a reference decoder", "All strings up to a length over the significant alphabet, all 65536 escape pairs in context, all positions in long inputs; the reference decoder and mc/ are trusted.")

prop("C11", "Query parameters are what the query string says",
  "For every query string, the parameters an application obtains are those of splitting it at ampersands and first equals signs and then decoding each name and value (percent escapes and plus signs), in order and with duplicates; a malformed query is reported as an error on every access. Parsing happens on demand, any number of accesses gives the same answer, and nothing of an earlier query remains.",
  ["inputs", "histories"], "all query strings over the significant alphabet up to a length, all access sequences",
  "The tests decode about ten strings.",
  ["http/query/query.go", "http/query/internal/parser.go", "internal/uridecode/decoder.go"],
  [m("lazy parsing", "http/query/query.go parse"), m("splitting and decoding", "http/query/internal/parser.go Parse")],
  "bounded exhaustive enumeration of query strings and access histories against a reference parser", STUB)

prop("C12", "Cookies are read and written faithfully",
  "The cookies an application reads are exactly the name=value pairs of the request's Cookie headers, in order, and a malformed Cookie header is reported as an error. Every cookie set on a response is rendered as one Set-Cookie line from which its name, value and attributes can be read back.",
  ["inputs"], "all cookie strings over the significant alphabet up to a length; all attribute combinations",
  "The tests parse a few jars and render three cookies.",
  ["http/cookie/cookie.go", "http/cookie/jar.go", "internal/protocol/http1/serializer.go", "http/request.go"],
  [m("cookie parsing", "http/cookie/jar.go Parse"), m("cookie rendering", "internal/protocol/http1/serializer.go renderCookie")],
  "bounded exhaustive enumeration of cookie strings and attribute sets against reference parser and renderer", STUB)

prop("C13", "Header and parameter storage is an ordered, case-insensitive multimap",
  "After any sequence of operations, looking up a name in any letter case gives the first value added for it, or all of them in order; the listed names are the distinct ones in first-seen order; iteration gives every pair in order; a clone is independent of later changes to the original, and clearing leaves nothing behind.",
  ["histories"], "all operation sequences up to a depth over colliding names",
  "The tests do single operations on one storage.",
  ["internal/keyvalue/storage.go", "http/headers/headers.go"],
  [m("ordered pairs", "internal/keyvalue/storage.go")],
  "exhaustive exploration of operation sequences against a reference multimap", STUB)

prop("C14", "Header value helpers extract the right parts of a value",
  "For every header value, the helpers return the part before the first semicolon, the value of a named parameter up to the next semicolon or the given default when it is absent, the charset or its default, and the quality digit of a q=0.d parameter or its default. Escaping a path for logs leaves printable ASCII only and changes nothing that is printable.",
  ["inputs"], "all values over the significant alphabet up to a length",
  "The tests check eight strings.",
  ["http/headers/valueaccessors.go", "http/path.go"],
  [m("parameter lookup", "http/headers/valueaccessors.go")],
  "bounded exhaustive enumeration against reference functions", STUB)

prop("C15", "Static routing: right handler, 404, 405 with Allow, HEAD and trailing slashes",
  "For every set of registered static routes and every request, the handler registered for the path and method is called and no other; a HEAD request without an own handler is served by the GET one; an unknown path gives 404, a known path with another method 405 with an Allow header naming exactly the registered methods. Trailing slashes make no difference, and a TRACE request to a known path without a handler of its own is echoed.",
  ["programs", "inputs"], "all route tables of a small universe times all methods and paths",
  "The tests register one table.",
  ["router/inbuilt/inbuilt.go", "router/inbuilt/registrar.go", "router/inbuilt/resource.go", "router/inbuilt/route.go", "router/inbuilt/trace.go", "router/inbuilt/uri/normalize.go"],
  [m("route lookup", "router/inbuilt/inbuilt.go"), m("method tables and allowed methods", "router/inbuilt/registrar.go")],
  "exhaustive enumeration of route tables and requests on the real router against a reference matcher", STUB)

prop("C16", "Dynamic routing: templates match exactly what they describe",
  "For every set of path templates that can be registered together and every path, the template whose segments equal or capture the path's segments is chosen, a fixed segment being preferred over a parameter at the same place, each parameter holds exactly the text of its segment, and a path no template describes is not served by any. Parameters of one request are never visible in another.",
  ["programs", "inputs", "histories"], "all template sets of a small universe times all paths up to a depth",
  "The tests have a single tree.",
  ["router/inbuilt/internal/radix/tree.go", "router/inbuilt/internal/radix/template.go", "router/inbuilt/internal/radix/arrmap.go", "router/inbuilt/inbuilt.go"],
  [m("segment tree", "router/inbuilt/internal/radix/tree.go"), m("template parser", "router/inbuilt/internal/radix/template.go")],
  "exhaustive enumeration of template sets and paths on the real router against a reference matcher", STUB)

prop("C17", "Middlewares, groups, catchers, error handlers and aliases apply as declared",
  "Every request passes the middlewares of its route's group and its enclosing groups, outermost and first-registered first, each exactly once, and only those; grouped routes live under the concatenated prefixes. Errors are answered by the error handler registered for their code, else by the one for all errors, else by the default; the middlewares of the root wrap the error handlers, too; the catcher with the longest matching prefix serves otherwise unknown paths; an alias serves its target while recording the requested path. A router may be initialised and shared several times without any of this changing.",
  ["programs", "inputs"], "all registration programs up to a depth times requests",
  "The tests check one nesting.",
  ["router/inbuilt/groups.go", "router/inbuilt/middlewares.go", "router/inbuilt/catchers.go", "router/inbuilt/inbuilt.go", "router/inbuilt/mutator/alias.go", "router/inbuilt/predicates.go"],
  [m("middleware composition", "router/inbuilt/middlewares.go"), m("catchers", "router/inbuilt/catchers.go"), m("error handlers", "router/inbuilt/inbuilt.go")],
  "exhaustive enumeration of router-building programs against a reference interpreter", STUB)

prop("C18", "Static file serving maps paths faithfully and never leaves its root",
  "A request below a static prefix is answered with the exact content and media type of the regular file of that relative path under the configured root, or with 404 if there is none. (File names containing two consecutive dots may be refused.) No request path, however spelled or percent-encoded, makes the server open anything outside the root.",
  ["inputs", "configurations"], "all request paths over dots, slashes, escapes and file names up to a length, for several roots and prefixes",
  "The tests fetch one existing file and a few traversal attempts.",
  ["router/inbuilt/static.go", "internal/pathlib/pathlib.go", "http/path.go", "http/response.go"],
  [m("traversal check", "router/inbuilt/static.go"), m("path joining", "internal/pathlib/pathlib.go")],
  "exhaustive enumeration of request paths on the real server over a scratch directory against a reference resolver", STUB + "Runs over a scratch directory it creates.")

prop("C19", "Virtual hosts get exactly the requests addressed to them",
  "A request is served by the first virtual host whose name equals its Host header, compared without letter case, a leading www. and the default ports 80 and 443; any other request goes to the default router or, without one, is refused with 421 (400 if it has no Host). A request with several Host headers is refused with 400 and reaches no router, and errors are handled by the same router as the request.",
  ["programs", "inputs"], "all registrations of up to three hosts times all Host headers of the alphabet",
  "The tests check three registrations with plain names.",
  ["router/virtual/virtual.go", "router/virtual/internal/domain/normalize.go"],
  [m("host matching", "router/virtual/virtual.go getRouter"), m("host normalisation", "router/virtual/internal/domain/normalize.go")],
  "exhaustive enumeration of host tables and requests on the real server against a reference matcher", STUB)

prop("C20", "Listen addresses are completed and classified correctly",
  "An address with a port only is completed with the any-address 0.0.0.0, and every other address is left as it is. An address is recognised as local exactly if its host is localhost in any letter case, and as an IP exactly if its host is an IPv4 address or a bracketed IPv6 address, whatever the port.",
  ["inputs"], "all host:port strings over a small alphabet up to a length, all octet values",
  "Five examples are tested.",
  ["internal/address/address.go", "indi.go"],
  [m("port stripping", "internal/address/address.go stripPort")],
  "bounded exhaustive enumeration against independent recognisers", "The reference recognisers and mc/ are trusted; strings that are no host:port are outside of the alphabet.")

prop("C21", "The connection wrapper is a faithful byte stream",
  "Reading a connection yields every byte the peer sent exactly once and in order, together with any error the connection reported; data that was put back is returned first, before the connection is touched again, and handing data out or putting it back does not alter data still in use. Every blocking read is preceded by arming the configured read timeout, everything written reaches the connection, and errors of the connection are passed on.",
  ["histories", "fault_sequences"], "all sequences of read, put back, write and close with all answers of the connection up to a depth",
  "There is no test of the real wrapper at all, only of its test double.",
  ["internal/tcp/client.go"],
  [m("pending buffer", "internal/tcp/client.go Read, Unread"), m("deadline", "internal/tcp/client.go Read")],
  "exhaustive exploration of operation sequences and connection answers against a reference stream", "The scripted connection and mc/ are trusted.")

prop("C22", "The streaming body reader honours the reader contract",
  "Over any source of data pieces, the reader delivers every byte once and in order, never more than the caller's buffer holds, and reports the source's error only after all the data, again on every further read, without calling the source again. After a reset it serves a new source without a trace of the old one.",
  ["histories", "fault_sequences"], "all source answers and buffer sizes up to a depth",
  "The tests drain a one-piece source with two buffer sizes.",
  ["internal/stash/reader.go"],
  [m("pending data and sticky error", "internal/stash/reader.go Read")],
  "exhaustive exploration of read histories against the contract", "The scripted source and mc/ are trusted.")

prop("C23", "The string map returns the first value inserted under a key, and only that",
  "After any sequence of insertions, looking a key up finds the value of the first insertion under exactly that key, and reports absence for every other key, whatever the lengths of the keys and the order of the insertions.",
  ["histories"], "all insertion sequences up to a depth over keys of equal and different lengths",
  "The tests insert up to three keys in one order.",
  ["internal/strlenmap/map.go"],
  [m("buckets by key length", "internal/strlenmap/map.go")],
  "exhaustive exploration of insertion histories against a reference map", "The reference map and mc/ are trusted.")

prop("C24", "Content codings are dispatched to exactly the registered coding",
  "Encoding or decoding with a token applies exactly the coding registered last for it, once, and returns its result or error; gzip and compress also answer to their x- aliases, identity and empty input pass unchanged, and any other token is reported as unknown. Each coding gets an own buffer of the configured size.",
  ["histories", "inputs"], "all registration sequences up to a depth times tokens, inputs and directions",
  "The tests register one coding.",
  ["http/coding/codings.go"],
  [m("token table and aliases", "http/coding/codings.go AddCoding")],
  "exhaustive exploration of registration histories against a reference table", "The fake codings and mc/ are trusted.")

prop("C25", "Method and protocol tokens are recognised exactly",
  "Exactly the nine standard methods, in upper case, are recognised, and every method is rendered as the token it is parsed from. Exactly the tokens HTTP/1.0, HTTP/1.1 and HTTP/2.0 are recognised as protocols; among upgrade tokens, the first supported one in the client's order is chosen.",
  ["inputs"], "all short upper-case words, all strings within one edit of a token, all byte values of the version digits, all upgrade lists of up to three tokens",
  "Methods have a benchmark only; protocols are tested through two requests.",
  ["http/method/method.go", "http/method/method_string.go", "http/proto/proto.go", "http/proto/upgrade.go"],
  [m("token tables", "http/method/method.go Parse"), m("version parsing", "http/proto/proto.go FromBytes")],
  "bounded exhaustive enumeration of tokens against the list of valid ones", STUB)

prop("C26", "Accepting, pausing and stopping a server is safe under every schedule",
  "Under every interleaving of accepting, serving and shutting down, each accepted connection is handed to the handler exactly once, independently of how long others are being served, and closed after the handler is done (only a connection being accepted while the shutdown begins may be closed unserved); waiting returns only when no handler is running and every served connection is closed, and no connection is handed to a handler after that. A socket that fails to close or to be interrupted does not keep the other servers from being stopped and waited for. Pausing or stopping makes the accept loop end, pausing never interrupts connections being served, and nothing deadlocks.",
  ["schedules", "fault_sequences"], "all interleavings, up to a preemption bound, of the accept loop, up to two connections and the shutting-down goroutine",
  "One test starts and stops a listener without a single connection.",
  ["internal/tcp/server.go"],
  [m("wait group and shutdown flag", "internal/tcp/server.go Start, Pause, Wait")],
  "stateless exploration of all schedules up to a preemption bound of the real code (instrumented copy, controlled scheduler)", "Scheduling points at every statement of the package; sequentially consistent interleavings only; fake listener and connections, the scheduler in vsched/ and the instrumenter are trusted.")

prop("C27", "The application starts, stops and reports its lifecycle correctly",
  "Whatever the order and the number of stop requests, listener failures and connections, serving ends: each hook runs as documented (bind per bound address, start once when all are bound, stop once when nothing is served any more), the returned error names the cause, stop requests do not block, and all listeners are closed. A graceful stop lets connections being served finish. Stop requests made while the application is stopping do not stop it when it serves again.",
  ["schedules", "fault_sequences"], "all interleavings, up to a preemption bound, of two listeners, connections and up to two stop requests",
  "The tests run one graceful and one immediate stop.",
  ["indi.go", "internal/tcp/server.go"],
  [m("error channel and shutdown sequence", "indi.go run")],
  "stateless exploration of all schedules up to a preemption bound of the real code (instrumented copy, controlled scheduler)", STUB + "Scheduling points at every statement of the application and server packages.")

prop("C28", "Concurrent connections are isolated from each other",
  "Whatever the interleaving of requests on different connections sharing one router, each client gets exactly the response it would get alone: no byte of another connection's request, path, parameters, body, trace or file appears in it.",
  ["schedules"], "all interleavings, up to a preemption bound, of two connections over pairs of request kinds",
  "The tests serve one connection at a time.",
  ["router/inbuilt/inbuilt.go", "router/inbuilt/trace.go", "router/inbuilt/static.go", "internal/pathlib/pathlib.go", "router/virtual/virtual.go"],
  [m("per-request state only", "router/inbuilt")],
  "stateless exploration of all schedules up to a preemption bound of the real code (instrumented copy, controlled scheduler)", STUB)

prop("C29", "Each listener serves its own connections with its own handler and encryption",
  "With any number of listeners of any kinds, a connection accepted by a listener is served by the handler given for that listener and shows that listener's encryption to the application, on the first and on every later request of the connection.",
  ["configurations", "histories"], "all combinations of up to three listeners of all kinds, connections in every order",
  "The tests use one listener at a time, or look at the first request only.",
  ["indi.go", "http/serve/http1.go", "http/request.go"],
  [m("binding handlers to listeners", "indi.go bind"), m("encryption in the request environment", "http/request.go Clear")],
  "exhaustive enumeration of listener configurations and connection orders on the real application over fake listeners", STUB)

prop("C30", "A partially filled configuration is completed with the defaults",
  "Every option an application sets is used as given, and every option left at its zero value has its documented default, independently of all the other options; an application tuned with it uses these values on all its listeners, whether they were added before or after tuning.",
  ["configurations"], "all subsets of options set (all pairs of options, and every single one with several values)",
  "There is no test.",
  ["config/config.go"],
  [m("filling", "config/config.go Fill")],
  "exhaustive enumeration of single options and pairs of options over the real structure", STUB)

prop("C31", "Hijacking hands the raw connection over, upgrades are negotiated properly",
  "A handler that hijacks the connection gets every byte behind the request and its body, in order, and the server neither writes to nor reads from the connection afterwards. An upgrade to HTTP/1.0 or HTTP/1.1 is confirmed with one 101 response naming it before the answer, which is given in that version; other upgrade offers are ignored and change nothing.",
  ["inputs", "histories"], "all bodies, splits and hijack points, all upgrade offers of the alphabet on every request of a connection",
  "The tests hijack once with the data in one piece and never upgrade.",
  ["http/request.go", "internal/protocol/http1/suit.go", "http/proto/upgrade.go"],
  [m("hijacking", "http/request.go Hijack"), m("upgrade response", "internal/protocol/http1/suit.go serve")],
  "exhaustive enumeration of hijack points, splits and upgrade offers on the real server", STUB)

prop("C32", "Trailing slashes of a path never matter",
  "Normalising a path removes all its trailing slashes and nothing else, keeps the root as a single slash and the empty path empty, and is idempotent.",
  ["inputs"], "all paths over a small alphabet up to a length, all byte values",
  "Three examples are tested.",
  ["router/inbuilt/uri/normalize.go"],
  [m("backward scan", "router/inbuilt/uri/normalize.go Normalize")],
  "bounded exhaustive enumeration against a reference", "The reference and mc/ are trusted.")

prop("C33", "Status codes, phrases, errors and media types agree with the registries",
  "Every registered status code has its standard reason phrase, a status line consisting of exactly that code and phrase, and no status line exists for unregistered codes. Each predefined error carries the status code its name says, and file extensions map to their registered media types.",
  ["inputs"], "all 65536 codes, all predefined errors and extensions",
  "No test looks at the tables.",
  ["http/status/codes.go", "http/status/errors.go", "http/mime/exts.go", "http/mime/common.go"],
  [m("phrase and line tables", "http/status/codes.go"), m("error values", "http/status/errors.go")],
  "exhaustive enumeration of the whole code space", "The standard library's phrases and the table in the harness are trusted.")

prop("C34", "Bundled middlewares, request logs and the simple router do what they declare",
  "HTTPSOnly serves encrypted requests and redirects every other one to the same host, path and query over HTTPS (400 without a host), whatever the path contains; Redirect redirects exactly its path; Recover turns a panic into one complete 500 response and the connection goes on; ServerHeader adds its value to every response; CustomContext shows its context to the handlers behind it and to no other request; each request is logged once per logger as one line of printable text. Any chain of them around any handler, including ones returning nil, gives exactly one well-formed response. The simple router gives requests to its handler and errors, with their cause, to its error handler.",
  ["inputs", "configurations"], "all paths over an alphabet of critical bytes, all hosts of the alphabet, all chains of middlewares up to a length around all kinds of handlers",
  "The tests use middlewares of their own and look at none of the bundled ones.",
  ["router/inbuilt/middleware/httpsonly.go", "router/inbuilt/middleware/redirect.go", "router/inbuilt/middleware/recover.go", "router/inbuilt/middleware/logging.go", "router/inbuilt/middleware/serverheader.go", "router/inbuilt/mutator/requestlogger.go", "router/simple/simple.go"],
  [m("redirect location", "router/inbuilt/middleware/httpsonly.go HTTPSOnly"), m("panic recovery", "router/inbuilt/middleware/recover.go Recover"), m("request log", "router/inbuilt/middleware/logging.go LogRequests")],
  "exhaustive enumeration of paths, hosts and middleware chains on the real server", STUB)

prop("C35", "JSON passes through requests and responses unchanged",
  "A request body that is a JSON document fills the model with exactly that document's data, however the body is framed and split and whatever was decoded before; a document that is malformed, cut off or followed by other data, or a content type other than JSON, is reported as an error. A JSON response consists of exactly the encoding of its model with the JSON media type; a model which cannot be encoded gives an error response without any part of it.",
  ["inputs", "histories"], "all documents of a grammar up to a depth, all their prefixes, framings and splits, sequences of responses",
  "One small document is decoded and one encoded by the tests.",
  ["http/request.go", "http/response.go"],
  [m("decoding", "http/request.go JSON"), m("encoding", "http/response.go TryJSON")],
  "bounded exhaustive enumeration of documents on the real server against encoding/json", STUB + "The jsoniter module itself is part of what is checked.")


prop("C36", "HTTPS listeners have a sound certificate, whatever earlier runs left",
  "On localhost and on IP addresses, AutoHTTPS serves TLS by a valid self-signed certificate with the matching key, whatever earlier runs left in the cache of certificates: runs which were interrupted at any point, which failed to write, or files that are missing, damaged or don't belong together; a sound pair is used on and left alone, anything else is replaced, and if that is impossible, the address isn't served at all, in particular not without encryption, while the other listeners are. On other addresses, stored certificates are presented, and new ones are asked for only for the domains listed (any, if none is). HTTPS presents exactly the pair it was given, and an application with an unsound pair refuses to start.",
  ["crash_points", "fault_sequences", "histories", "configurations"], "all prefixes of each stored file beside all states of the other, all bytes at which writing fails, all sequences of runs and damages up to a depth",
  "The tests start with an empty cache and write it completely.",
  ["https.go", "indi.go", "internal/address/address.go"],
  [m("generating and reusing the pair", "https.go generateSelfSignedCert"), m("choosing the kind of listener", "indi.go AutoHTTPS")],
  "exhaustive enumeration of crash states, write faults and run histories on the real application, real TLS handshakes over fake listeners", STUB + "Keys come from a fixed pool instead of rsa.GenerateKey.")