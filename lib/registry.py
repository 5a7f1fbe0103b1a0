#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 lib/registry.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ spec, TLC model checking + trace validation of the real code"

def P(id, title, statement, over, qtext, why, files, mech, observe, check=None, level="model_checking", note="", thorough=True, na=None, technique=TLA):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                check=check, level=level, note=note, thorough=thorough, na=na, technique=technique)

S = "src/onion/"
PROPS = [
P("C01", "Request heads reach handlers exactly as sent, however the bytes are split",
  "For every well-formed request head the application sees exactly the method, percent-decoded path, query parameters, HTTP version and headers that were sent: nothing lost, added, truncated or reordered among repeated names, header names matched case-insensitively, folded header lines joined and surrounding blanks dropped. The result is the same for every way of splitting the bytes into reads, one byte at a time included.",
  ["inputs", "schedules"], "all request heads of the grammar (methods, paths with escapes, query strings, up to dozens of headers, values up to the token limit) x all segmentations of their bytes",
  "Tests feed a few fixed requests, mostly in one piece; a parser bug that depends on where a read ends or on a rare byte combination is not sampled.",
  [S+"request_parser.c", S+"request.c", S+"codecs.c", S+"http.c"], [("request head parser", S+"request_parser.c"), ("request object accessors", S+"request.c"), ("percent decoding", S+"codecs.c")],
  "dump of the request object taken inside a handler", check="head"),
P("C02", "Request bodies reach handlers byte for byte, however the bytes are split",
  "The fields of a urlencoded or multipart form, uploaded file contents and names, raw request bodies and PUT bodies are presented to the handler exactly as the client encoded them, with repeated fields and arbitrary bytes (delimiter look-alikes such as partial boundaries included) preserved. The result does not depend on how the body is split into reads or on how it is aligned with the head.",
  ["inputs", "schedules"], "all form/multipart/raw/PUT bodies within the size limits x all segmentations",
  "Multipart matching keeps partial-match state across reads; tests use a handful of recorded bodies with one or two segmentations.",
  [S+"request_parser.c", S+"request.c", S+"codecs.c"], [("urlencoded, multipart, raw and PUT body parsers", S+"request_parser.c")],
  "dump of fields, files and data taken inside a handler", check="body"),
P("C03", "Oversized or malformed requests are refused before any handler runs",
  "A request whose body or uploaded files exceed the configured maxima, whose head is malformed, or whose request line or header name is too long never reaches a handler, and the connection is closed after it; a request exactly at the limit is still served. No byte sequence from a client, in any segmentation, crashes, hangs or corrupts the server, and other connections are unaffected.",
  ["inputs", "schedules", "configurations"], "arbitrary and grammar-mutated byte streams, sizes around every limit, all segmentations",
  "Limits are checked at several places of an incremental parser; whether one is bypassed depends on sizes and segmentation that tests do not enumerate.",
  [S+"request_parser.c", S+"http.c", S+"onion.c"], [("limits", S+"request_parser.c"), ("error handling of reads", S+"http.c")],
  "handler invocations, connection close and process health", check="reject"),
P("C04", "Requests on one connection are answered once, in order and in isolation",
  "On a kept-alive connection every complete request is handed to the handler exactly once and in the order received, and its response is finished before the next one starts. Nothing of one request (headers, cookies, query, form data, files, session, path) is visible in the next, and the connection stays open exactly when both the protocol version, the client's wish and the response allow it.",
  ["histories", "schedules"], "all sequences of requests (methods, versions, connection headers, bodies, handler results) on a connection x segmentations",
  "State kept in a reused request object leaks only for particular request sequences; tests use one or two requests per connection.",
  [S+"request.c", S+"response.c", S+"http.c", S+"request_parser.c"], [("request reuse", S+"request.c"), ("keep-alive decision", S+"response.c"), ("read loop", S+"http.c")],
  "handler invocations, bytes written and close of each connection", check="conn"),
P("C05", "Response framing lets any client recover status, headers and exact body",
  "Whatever sequence of writes, flushes, header and length settings a handler performs, the bytes on the wire parse as one HTTP response whose status, headers and body are what the handler produced, delimited by a correct content length, by well-formed chunks, or by closing the connection. Responses to HEAD and responses that carry no body never have body bytes, chunked encoding is never sent to HTTP/1.0 clients, and the connection stays open only if the body's end can be determined.",
  ["inputs", "histories"], "all sequences of response operations up to sizes spanning several internal buffers x request method, version and connection wish",
  "Framing depends on the position of buffer boundaries relative to writes; tests check a few fixed bodies.",
  [S+"response.c", S+"request.c", S+"http.c"], [("response writer and chunking", S+"response.c")],
  "bytes written to the connection", check="resp"),
P("C06", "Short writes and write errors never lose, duplicate or reorder response bytes",
  "When the transport accepts only part of the data, the remaining bytes follow exactly once and in order until all are sent. When it reports an error, what was sent is a prefix of the intended response, the handler is told that writing failed, and the connection is closed.",
  ["fault_sequences", "histories"], "all patterns of short writes and failures on the transport x response operation sequences",
  "The tests' transport accepts everything at once.",
  [S+"response.c", S+"http.c", S+"https.c"], [("flush loop", S+"response.c")],
  "bytes accepted by the transport, results returned to the handler", check="shortw"),
P("C07", "Routing picks the first matching rule and hands over the right remainder",
  "A request goes to the first registered rule whose pattern matches the beginning of the remaining path (a whole-path match for plain strings), in registration order, through any nesting of routers; the handler sees the unmatched remainder as its path and the pattern's captured groups as its numbered parameters. If no rule matches, or every matching handler declines, the request falls through to the next handler and finally to the not-found response.",
  ["inputs", "programs"], "all rule tables up to a bound (plain strings, regexes with groups, nested tables, handler chains) x request paths",
  "Tests hold two or three fixed tables.",
  [S+"url.c", S+"handler.c", S+"handlers/path.c", S+"onion.c"], [("pattern table", S+"url.c"), ("handler chain", S+"handler.c"), ("path handler", S+"handlers/path.c")],
  "which handler ran and the path and parameters it saw", check="route"),
P("C08", "Handler results map to the documented status, and every request gets a response",
  "Every request accepted by the parser receives exactly one response: what the handler wrote if it says it processed the request, otherwise the documented error page (not found, internal error, not implemented, forbidden) unless the application installed its own error handler, which then decides. Shortcut responses (redirect, plain text, JSON) carry the documented status, headers and body.",
  ["inputs", "programs"], "all handler results x whether the handler wrote something first x error handler configured or not x methods",
  "Combinations of result, partial output and custom error handling are not enumerated by tests.",
  [S+"request.c", S+"onion.c", S+"shortcuts.c", S+"response.c"], [("request processing and default error handler", S+"request.c"), ("shortcuts", S+"shortcuts.c")],
  "response bytes", check="status"),
P("C09", "File exports never serve anything outside the exported directory",
  "Whatever path a client asks for (dot segments, encoded separators, symbolic links, names that share a prefix with the exported directory), the content sent is that of a regular file whose resolved location is inside the exported directory, or a listing of a directory inside it; otherwise no file content is sent. Every readable file that is inside the directory is served under its path.",
  ["inputs", "configurations"], "directory trees with links and sibling directories x request paths built from all path tricks",
  "Containment must hold for every path; tests try one or two escapes.",
  [S+"handlers/exportlocal.c", S+"shortcuts.c"], [("containment test and directory listing", S+"handlers/exportlocal.c"), ("file sending", S+"shortcuts.c")],
  "response body compared with the contents of all files of the tree", check="export"),
P("C10", "Served files are byte-exact, with correct ranges and revalidation",
  "A file is sent byte for byte with its exact length and MIME type derived from its name; a byte range request receives exactly the requested bytes with matching status, length and range headers, and an unsatisfiable range is never answered with file bytes. A client presenting the current entity tag gets an empty not-modified answer, and the tag changes whenever the file's size or modification time does.",
  ["inputs", "histories"], "file sizes around every internal buffer size x range forms x conditional headers x HEAD and GET x file changes",
  "Range arithmetic has boundary cases at every file and buffer size.",
  [S+"shortcuts.c", S+"mime.c", S+"response.c"], [("file response", S+"shortcuts.c"), ("MIME table", S+"mime.c")],
  "response bytes", check="file"),
P("C11", "WebDAV methods have exactly their effect and stay inside the share",
  "Reading, writing, deleting, moving, making collections and listing properties act on the shared directory tree exactly as the method demands and report success only if the effect took place; a failed request changes nothing. No request path or destination makes the handler read, create, change or remove anything outside the shared directory.",
  ["inputs", "histories"], "sequences of WebDAV requests over small trees x path tricks in path and destination",
  "Tests do not exercise the handler at all.",
  [S+"handlers/webdav.c"], [("method handlers and permission check", S+"handlers/webdav.c")],
  "file tree before and after each request, responses", check="webdav"),
P("C12", "Sessions belong to whoever holds an unguessable, server-issued identifier",
  "A request carrying the identifier of a live session sees exactly the data stored in that session so far; any other request starts with an empty session, and an identifier the server did not issue is never adopted. Identifiers are issued fresh for each new session, sent to the client exactly when the session holds data, and invalid after the session is removed; data never crosses between sessions.",
  ["histories", "inputs"], "all interleavings of requests of several clients that read, write, keep or drop sessions, with forged, stale, repeated and malformed session cookies",
  "Session state spans requests; leaks and fixation need particular histories.",
  [S+"sessions.c", S+"sessions_mem.c", S+"request.c", S+"response.c"], [("session lookup and creation", S+"request.c"), ("session store", S+"sessions.c"), ("cookie emission", S+"response.c")],
  "session contents seen by handlers, session cookies on the wire", check="session"),
P("C13", "All session stores behave alike and keep sessions across restarts of the store",
  "The memory, SQLite and Redis stores give the same answers for the same history of saves, loads and removals; loaded data equals what was last saved under that identifier, nested dictionaries and arbitrary text included, and nothing is found under an identifier that was never saved or was removed. A persistent store still has its sessions when it is opened again.",
  ["histories", "inputs"], "histories of save, load, remove and reopen over several identifiers and values with special characters",
  "Tests store a couple of plain values in one store.",
  [S+"sessions_mem.c", S+"sessions_sqlite3.c", S+"sessions_redis.c", S+"sessions.c"], [("stores", S+"sessions_mem.c"), ("SQLite store", S+"sessions_sqlite3.c"), ("Redis store", S+"sessions_redis.c")],
  "results of the store operations", check="store"),
P("C14", "Dictionaries are balanced ordered multimaps with exact ownership",
  "For every history of operations a dictionary holds exactly the entries added and not removed or replaced, listed in key order with equal keys in insertion order, case-insensitively where so configured, and lookups, counts, removals, merges and nested lookups answer accordingly with logarithmic lookup cost. Shared duplicates stay one object, deep duplicates are independent, and every key, value and nested dictionary handed over is released exactly once, when the last holder lets go.",
  ["histories"], "all histories of add, replace, remove, lookup, nest, share, copy, merge and free over several dictionaries, with repeated keys and mixed case",
  "Tree rotations, repeated keys and shared ownership interact; tests use a few fixed sequences.",
  [S+"dict.c"], [("AA tree", S+"dict.c"), ("reference counting", S+"dict.c")],
  "results and listings after each call, live allocations at the end", check="dict"),
P("C15", "JSON text and dictionaries convert into each other without loss",
  "Every dictionary of strings and nested dictionaries, with any characters in keys and values, is written as valid JSON that reads back as an equal dictionary. Valid JSON objects of strings, digits and objects are read with their exact meaning, escapes included, and every text that is not such an object (unquoted or missing parts, trailing commas or text, other kinds of values, broken or NUL escapes, truncations) is refused without reading beyond its end; unescaped control characters, unknown one-letter escapes and leading zeros may be accepted.",
  ["inputs"], "all nested dictionaries over all byte values; JSON texts and their mutations and truncations",
  "Escaping has a case per character class and truncation point.",
  [S+"dict.c", S+"codecs.c"], [("JSON writer and reader", S+"dict.c"), ("JSON quoting", S+"codecs.c")],
  "text produced, dictionary read back", check="jsontext"),
P("C16", "Encoders and decoders are exact inverses and safe on any input",
  "Base64 and percent encoding followed by decoding return the original bytes, encoded text follows the respective standard, and decoding accepts the standard's variations (line breaks, plus signs, upper and lower case hex digits), while texts that are not base64 are refused. Text quoted for HTML, C or JSON never contains an unescaped special character and denotes the original text, or a beginning of it when the given buffer is too short; no input makes any codec read or write outside its buffers.",
  ["inputs"], "all byte strings up to several blocks, malformed encodings, all output buffer sizes",
  "Boundary cases depend on length modulo the block size and on the last characters.",
  [S+"codecs.c"], [("base64, URL, HTML, C and JSON codecs", S+"codecs.c")],
  "outputs of the codec functions", check="codec"),
P("C17", "Poller callbacks run exclusively and descriptors are cleaned up exactly once",
  "With any number of polling threads, a ready descriptor's callback runs in one thread at a time and is run again for later readiness as long as it asks to stay; readiness is never lost. A descriptor that leaves the poller (its callback refuses, it is removed, it hangs up, it times out or the poller is freed) gets its shutdown callback exactly once and no further callbacks, whatever the interleaving of adding, removing, readiness, timeouts and stopping.",
  ["schedules", "histories"], "interleavings of polling threads, descriptor readiness, additions, removals, timeouts and stop",
  "Races need specific interleavings; tests run a couple of timing-dependent scenarios.",
  [S+"poller.c"], [("event loop and slot list", S+"poller.c")],
  "callback and shutdown invocations per descriptor", check="poller"),
P("C18", "Idle descriptors time out when due, and never early",
  "A descriptor with a timeout that stays inactive is shut down once its timeout has passed, at the latest about a second late plus one polling round, and not before (timeouts are whole seconds, counted on the seconds of the clock); activity restarts its period, and descriptors without a timeout are never closed for inactivity. This holds for any mix of timeouts and activity times, with several pollers in the process and any number of polling threads.",
  ["schedules", "histories"], "all mixes of descriptors, timeouts, activity times and pollers on a virtual clock",
  "Needs control over the clock and many timing combinations.",
  [S+"poller.c"], [("timeout scan", S+"poller.c")],
  "shutdown times on a virtual clock", check="timeout"),
P("C19", "Servers start, stop, restart and are freed cleanly in every mode",
  "In each operating mode a listening server answers requests until it is asked to stop, from whatever thread and at whatever moment; then listening returns once the requests in progress finish, its ports refuse connections, and freeing the server closes every connection and releases everything. Several listen points and a later restart on the same ports work. Ports that cannot be bound leave the others working, and listening fails, with nothing leaked, when no port is left.",
  ["histories", "schedules", "configurations"], "histories of add port, listen, connect, request, stop, restart and free in the operating modes, with clients in every phase",
  "Lifecycle bugs depend on what is in flight at the moment of stopping.",
  [S+"onion.c", S+"listen_point.c", S+"poller.c", S+"http.c"], [("listen loop and stop", S+"onion.c"), ("listen points", S+"listen_point.c")],
  "return of listen, sockets, descriptors and client observations", check="lifecycle"),
P("C20", "Nothing a request acquires outlives it",
  "Memory, file descriptors and temporary files acquired for a request, an upload, a session object, a websocket or a connection are all released when it ends, however it ends: completed, refused, cut off at any byte, or with a failing transport. An uploaded file stays available under its temporary name for as long as the handler runs.",
  ["crash_points", "inputs", "histories"], "every kind of request cut off after every byte or failing at every write, and complete sequences",
  "Leaks happen on early exits at particular bytes that tests never take.",
  [S+"request.c", S+"request_parser.c", S+"response.c", S+"websocket.c", S+"listen_point.c"], [("request clean and free", S+"request.c"), ("upload files", S+"request_parser.c")],
  "live allocations, descriptors and temporary files after the connection ends", check="resource"),
P("C21", "Websocket messages arrive and leave intact, in standard frames",
  "Data sent by a websocket client (masked or not, any length encoding, any segmentation and fragmentation) is delivered to the application byte for byte and in order with its announced opcode. Everything the application writes, of any length, leaves as well-formed standard frames whose payload concatenates to what was written, and the write result tells how much was sent.",
  ["inputs", "schedules"], "payload lengths around 0, 125, 126, 65535, 65536 and buffer multiples, masks, segmentations, read sizes",
  "Framing boundaries and read sizes multiply; tests use a few short frames.",
  [S+"websocket.c"], [("frame reader and writer", S+"websocket.c")],
  "bytes delivered to the application and bytes on the wire", check="ws"),
P("C22", "Websocket handshakes, control frames and endings follow the protocol",
  "Only a proper upgrade request (Upgrade: websocket, a key and version 13) becomes a websocket, with the accept key computed from the client's key; all others are served as plain requests. A ping is answered by a pong with the same payload, pongs are dropped, and neither is delivered as data, wherever they fall between data frames. A close frame is answered by a close frame and ends the connection; so do improper control frames, a broken connection and an application that refuses; the application is not called for data after that, and its per-connection data is released exactly once.",
  ["histories", "inputs"], "sequences of data, ping, pong and close frames and application decisions; handshake header variations",
  "Control frames may fall between any two reads of a data frame.",
  [S+"websocket.c", S+"request.c"], [("handshake and control frames", S+"websocket.c")],
  "frames on the wire, callbacks and releases", check="wsctl"),
P("C23", "Password-protected handlers run only for accepted credentials",
  "The protected handler runs only if the request carries basic credentials whose user and password the authentication service accepts, passed to it exactly as the client encoded them, or the identifier of a live session in which that happened; every other request, however malformed its credentials, gets the challenge and nothing of the protected content. An earlier success on the same connection does not by itself authorise a later request, and the session tells the handler which user was accepted.",
  ["inputs", "histories"], "authorization headers (absent, other schemes, malformed base64, missing separator, empty parts, long values) x service verdicts x request sequences",
  "Tests do not exercise the handler.",
  [S+"handlers/auth_pam.c", S+"codecs.c"], [("credential check", S+"handlers/auth_pam.c")],
  "handler invocations and responses, with a stand-in authentication service", check="auth"),
P("C24", "Cookies are parsed and set exactly",
  "Every cookie a client sends is available under its name with its exact value, whatever the number and order of cookies and the blanks between them, and no others are. Every cookie a handler sets appears once in the response with its name, value and the requested path, domain, lifetime and flags, and several cookies can be set in one response.",
  ["inputs"], "cookie headers with many forms of separators and values; sequences of cookies set with all attribute combinations and long values",
  "Combinations of attributes and lengths are not sampled by tests.",
  [S+"request.c", S+"response.c"], [("cookie parser", S+"request.c"), ("cookie writer", S+"response.c")],
  "cookies seen by handlers and header lines on the wire", check="cookie"),
P("C25", "Compiled templates and packed files reproduce their source",
  "A compiled template renders, for every dictionary, exactly the text its source denotes: literal text unchanged, variables escaped for HTML, loops over each entry in order, conditionals, includes and inheritance resolved. A file or directory packed into the program is served byte for byte under its name, with nothing outside the packed tree reachable.",
  ["inputs", "programs"], "templates built from all tags and nestings x dictionaries; files with arbitrary bytes",
  "The tools generate code; tests compile a few examples.",
  ["tools/otemplate", "tools/opack", S+"handlers/opack.c"], [("template compiler", "tools/otemplate"), ("packer", "tools/opack")],
  "output of the compiled templates and packed handlers", check="tmpl"),
P("C26", "Concurrent requests do not interfere",
  "With a pool of threads serving many connections at once, every client receives the response to its own request and session data written by one request is seen completely or not at all by others; shared dictionaries and reference counts stay consistent under any interleaving. No interleaving of requests crashes, deadlocks or corrupts the server.",
  ["schedules"], "interleavings, at the granularity of memory accesses, of requests sharing sessions, dictionaries and the handler tree",
  "Data races need specific interleavings that a test run practically never hits.",
  [S+"sessions_mem.c", S+"dict.c", S+"onion.c", S+"request.c", S+"random-gnutls.c"], [("session store locking", S+"sessions_mem.c"), ("reference counts", S+"dict.c")],
  "results of the concurrent operations, judged for linearizability", check="concur"),
P("C27", "HTTPS serves exactly as HTTP does",
  "Over TLS a client gets the answers it would get over a plain connection: however its bytes are cut into TLS records and these into network segments, every request sent is read completely and answered without more data being needed from the client, the client deciphers exactly what was written, in order, and is told when the answer ends by a proper close. Handlers see that the request is secure. A client that does not complete the handshake is dropped, served nothing, and leaves nothing behind nor disturbs other connections.",
  ["inputs", "schedules"], "request sequences x cuts into TLS records x cuts into network segments x clients that go away or do not speak TLS",
  "Tests use a browser-like client with small requests; what a record holds beyond one read is never sampled.",
  [S+"https.c", S+"http.c", S+"listen_point.c"], [("TLS listen point", S+"https.c"), ("read loop", S+"http.c")],
  "requests seen by handlers, and plaintext sent and received by a real TLS client over loopback", check="https"),
]

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": [p["observe"]]}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        path = os.path.join(V, "checks", (p["check"] or "none") + ".py")
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["check"] and os.path.exists(path):
            c = {"property": p["id"], "quick_cmd": "./check " + p["check"], "technique": p["technique"], "level": p["level"],
                 "level_note": p["note"] or "exhaustive on the bounded specification; the code is bound by trace validation of generated behaviours, so it is exploration of the code"}
            if p["thorough"]:
                c["thorough_cmd"] = "VERIF_TIER=thorough ./check " + p["check"]
            checks.append(c)
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
         "notes": "TLA+ (TLC). ./check <name> rebuilds libonion from /repo out of tree in .build, drives the real code and validates the recorded traces with TLC."}
    h = os.path.join(V, "hooks.json")
    if os.path.exists(h):
        m["hooks"] = json.load(open(h))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks;", len(na), "not claimed")

if __name__ == "__main__":
    main()
