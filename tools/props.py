#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

S = "src/server/"; H = "src/http/"; U = "src/utils/"; C = "src/client/"

p("C01", "Requests are dispatched to exactly the route that matches method and path",
  "A request runs the handler of the registered route whose method equals the request's method and whose pattern matches the path segment by segment (a literal segment matches only itself, a `:name` segment matches any one segment), and no other handler; when several patterns match, at the first segment where they differ the alternative that was registered first under that prefix wins, and a more specific dead end never hides a match reachable through another alternative. When no pattern of that method matches (including a path that is only a prefix or an extension of registered ones, or a target that does not start with '/') the answer is 404, no handler runs, and the server keeps serving. Registering a second route of one method and shape, or a pattern without a leading '/', is refused (by a panic in the caller) and changes nothing for requests and later registrations.",
  ["histories", "inputs", "configurations"], "every sequence of route registrations (also while the server is running, through groups or not) and every method and path",
  "The tests register three or four fixed patterns and fetch paths that match; none queries a non-matching path, an overlapping literal and parameter, another method's tree, or a prefix of a route.",
  [S+"node.rs", S+"router.rs", S+"server.rs", H+"requester.rs"],
  [("per-method route trees", S+"node.rs Root::add/fetch"), ("segment-by-segment insertion", S+"node.rs Node::add_fn/add_split"), ("depth-first lookup with backtracking", S+"node.rs Node::fetch_fn/fetch_split"), ("404 before header parsing", H+"requester.rs parse")],
  [("root", "one route tree per method, shared by all connections", S+"server.rs HttpServer.root")])

p("C02", "Path parameters carry the matched route's names and the request's segments",
  "When a request is dispatched to a route, the handler sees exactly the parameters named in that route's own pattern, each bound to the segment of the request path at its position, and no others. This holds whatever other routes (with other parameter names at the same position, or tried and abandoned during matching) are registered.",
  ["histories", "inputs"], "every set of registered patterns and every matching path",
  "One test reads two parameters of one pattern; parameter names shared by several patterns, abandoned alternatives, parameters in last position after other parameters are never sampled.",
  [S+"node.rs", S+"context.rs"],
  [("backward filling of fields", S+"node.rs Node::fetch_fn"), ("name taken from the matched pattern", S+"node.rs Node::field_name"), ("handler access", S+"context.rs req_field/req_have_field/req_count_fields")])

p("C03", "Filters run in order, before the handler, and stop at the first response",
  "For every request the filters of the matched route run exactly once each in this order: the route's own filters in their given order, then the filters of its group, then the handler; filters of other routes or groups never run. As soon as one of them has sent a response nothing after it runs, and exactly that response reaches the client.",
  ["configurations", "inputs", "histories"], "every combination of route filters and group filters, every choice of which filter responds, and every sequence of requests",
  "No test executes a filter chain: the router tests only look nodes up.",
  [S+"extend.rs", S+"router.rs", S+"server.rs"],
  [("filter loop with early stop", S+"extend.rs Extend::check_filter"), ("merging of route and group", S+"router.rs Router::repo_wf"), ("handler skipped once answered", S+"server.rs exec_stream")],
  [("executed", "whether a response has been sent", S+"context.rs Context")])

p("C04", "A rate-limited route never admits more requests than its limit allows",
  "Requests to a route with a limit of `count` requests per `section` milliseconds and a minimum `interval` are admitted (their filters and handler start) so that within any window of `section` milliseconds at most `count` are admitted and two consecutive admissions are at least `interval` milliseconds apart, however many connections send them and however long the route was idle before. Every waiting request is eventually admitted, each exactly once; a limit given to a group holds for each of the group's routes that has none of its own, and other routes are not delayed.",
  ["schedules", "histories", "configurations"], "every arrival schedule of requests over any number of connections, and every limit configuration",
  "The only limiter test prints messages and asserts nothing; it never measures admissions, bursts after idle time, or concurrent clients.",
  [S+"limit.rs", S+"extend.rs", S+"router.rs", S+"node.rs"],
  [("sliding window of admission times", S+"limit.rs Limit::run"), ("rendezvous between admission and request", S+"limit.rs Limit::recv / Channel::bounded(0)"), ("limit before filters", S+"extend.rs Extend::exec"), ("group limit inheritance", S+"router.rs Router::repo_wf")],
  [("times", "admission times of the last count requests", S+"limit.rs Limit.times")])

p("C05", "Every accepted pool task runs exactly once; rejection means a full queue",
  "A task accepted by the thread pool starts after it was submitted and runs exactly once, and a rejected task never runs; with idle or freed workers every accepted task eventually runs without any further submission being needed. At most the configured number of tasks run at any time, on threads carrying the configured name prefix with at least the configured stack, and a submission is rejected only when at least `task_count` accepted tasks are still waiting; while every worker is busy no more than `task_count` accepted tasks wait.",
  ["schedules", "histories", "configurations"], "every interleaving of submissions from any number of threads and clones with task completions, and every pool size and queue capacity",
  "The tests print from a few tasks and assert nothing about counts, order or rejection; races between a worker going idle and a task being queued are never forced.",
  [U+"concurrent/thread_pool.rs", U+"concurrent/thread.rs"],
  [("idle-worker queue then task queue", U+"concurrent/thread_pool.rs ThreadPool::execute"), ("dispatch on idle/task notification", U+"concurrent/thread_pool.rs ThreadPool::notify_check"), ("worker loop", U+"concurrent/thread_pool.rs Worker::work")],
  [("worker_idle_queue", "workers without a task", U+"concurrent/thread_pool.rs ThreadPool"), ("task_queue", "accepted tasks not yet handed to a worker", U+"concurrent/thread_pool.rs ThreadPool")])

p("C06", "A panicking task costs the pool neither a worker nor any other task",
  "When a task panics, the pool replaces its worker: after any number of panics, in any order and overlapping or not, the pool again runs as many tasks at once as its configured size, and every other accepted task still runs exactly once. A panic never blocks or fails later submissions, and when no thread can be had for a replacement at that moment, the pool makes do with the workers it has until one can.",
  ["schedules", "fault_sequences", "histories"], "every schedule of panicking and normal tasks and submissions",
  "No test lets a pool task panic and then checks that the remaining tasks and the concurrency level survive.",
  [U+"concurrent/thread_pool.rs"],
  [("sentinel reporting an abnormal exit", U+"concurrent/thread_pool.rs Sentinel::drop"), ("replacement worker", U+"concurrent/thread_pool.rs ThreadPool::notify_check Fill")])

p("C07", "Dropping the last pool handle drains accepted tasks and ends all threads",
  "Once every handle of a pool has been dropped, all tasks accepted before are still run exactly once (also when some of them panic), and afterwards every thread the pool created ends. While at least one clone is alive the pool keeps accepting and running tasks, whichever handles were dropped before. A pool whose threads cannot all be had is an error and leaves no thread behind.",
  ["schedules", "histories"], "every order of cloning, submitting, panicking and dropping handles across threads",
  "No test drops a pool with work outstanding or counts the threads left over.",
  [U+"concurrent/thread_pool.rs"],
  [("handle counting", U+"concurrent/thread_pool.rs Clone/Drop for ThreadPool"), ("close after the queue is empty", U+"concurrent/thread_pool.rs ThreadPool::notify_check Close")],
  [("count", "number of live handles", U+"concurrent/thread_pool.rs PoolState.count")])

p("C08", "A request is reconstructed exactly, however TCP splits it into segments",
  "For every well-formed request the handler observes exactly what the client sent: path, query, every header (names as sent; trimmed values; the last of a repeated name), cookies in order, Basic credentials, the client's own address and the websocket-handshake indication, and for POST, PUT and PATCH exactly the announced number of body bytes, independent of how the bytes were split over TCP segments or delayed. Standard headers act the same whatever the case of their names, a body sent with any other method is discarded without disturbing the next request, and exactly one handler invocation results.",
  ["inputs", "schedules"], "every well-formed request and every segmentation of its bytes",
  "The tests parse one request from a file that fits a single read and unit-test the header helpers; no test sends a request over a socket in more than one piece.",
  [H+"requester.rs", H+"header/header.rs", H+"request.rs", H+"url/authority/userinfo.rs", S+"context.rs"],
  [("head read up to the blank line", H+"requester.rs read_head"), ("request line and header parsing", H+"requester.rs parse_request_line/parse_request_header"), ("body of Content-Length bytes", H+"requester.rs fill_body"), ("derived values", H+"requester.rs parse_others")])

p("C09", "Malformed requests get the specified error, run no handler, and hurt nobody",
  "A request that cannot be served is answered with one error response and its connection is closed without any handler or filter running: 405 for an unknown method, 400 for a broken request line, head, credentials, cookies or truncated request, 505 for an unsupported version, 404 for an unknown route, 417 for a missing Host and 411 for an invalid Content-Length. Whatever bytes a client sends before closing its connection, even none, the server keeps accepting and correctly answering the requests of other clients.",
  ["inputs", "fault_sequences", "histories"], "every byte string a client may send, cut off at any point, interleaved with valid requests of other clients",
  "The tests contain no malformed or truncated request and never look at what the server does afterwards.",
  [H+"requester.rs", S+"server.rs", H+"response.rs"],
  [("interrupt with an error response", H+"requester.rs interrupt"), ("close on parse failure", S+"server.rs exec_stream/handle_connection")])

p("C10", "Requests of one connection are answered in order until it is to be closed",
  "On one connection requests are processed strictly one after another and each gets exactly one response before the next one's; the bytes of one request never leak into the next. After a request whose `Connection` header is exactly `keep-alive` the connection stays usable, after any other request (and after any error response) the server closes it once the response has been sent.",
  ["histories", "inputs"], "every sequence of requests with and without bodies, handlers, error cases and Connection headers on a connection",
  "No test uses a connection for more than one request, and none reads a response from a socket.",
  [S+"server.rs", H+"header/header.rs", H+"requester.rs"],
  [("first request, then loop", S+"server.rs handle_connection/loop_exec"), ("close decision", H+"header/header.rs Header::check_close")])

p("C11", "Idle keep-alive connections are closed after the timeout and not before",
  "A kept-alive connection without traffic is closed by the server once the configured keep-alive time has passed since its last response, and not before; every request served on it restarts that time, and a request that is being handled, however long, is never cut off by it. A closed or timed-out connection frees its worker, so that other clients can be served.",
  ["schedules", "histories", "configurations"], "every timing of requests and pauses relative to the configured timeout",
  "No test waits for the timer, keeps a connection busy across several timeouts, or checks that a worker is released.",
  [S+"server.rs"],
  [("timer thread per connection", S+"server.rs check_keepalive"), ("timer restart", S+"server.rs loop_exec Check::Update")],
  [("expect_time", "deadline of the idle connection", S+"server.rs check_keepalive")])

p("C12", "The response on the wire is exactly what the handler composed",
  "For every sequence of response operations of a handler the client receives one response consisting of the last version and status set (200 and the request's version by default) with the standard reason phrase, every header value added or set (set replaces, add appends in order), every cookie as its own Set-Cookie, the last content type (text/plain for bodies without one), a Content-Length equal to the number of body bytes that follow, and exactly the bytes of the last body written. `Connection: keep-alive` is announced exactly when the request asked for it.",
  ["programs", "inputs"], "every sequence of response-building operations and every body",
  "The tests compare two hand-made responses that are not even sent; no test looks at what reaches a client.",
  [H+"response.rs", H+"requester.rs", S+"context.rs", H+"values.rs"],
  [("composition", H+"response.rs add_header/set_header/write_type"), ("serialisation", H+"requester.rs Requester::response")])

p("C13", "Response compression follows Accept-Encoding and is always decodable",
  "With compression enabled, a body that compression makes smaller is sent compressed with the first among gzip, deflate (raw deflate) and zlib that the request lists with a non-zero weight; Content-Encoding then names that coding, decoding the received bytes yields exactly the handler's body, and Content-Length counts the bytes sent. With compression disabled, no acceptable coding, or a compressed form larger than an owned body, the body is sent unchanged and without Content-Encoding; rewriting the body leaves no trace of the earlier one.",
  ["inputs", "programs", "configurations"], "every Accept-Encoding value, body and sequence of body writes, with and without compression",
  "The tests only round-trip a constant through the codec functions; negotiation and the labelling of the response are never exercised.",
  [H+"response.rs", H+"header/encode_type.rs", U+"compress.rs"],
  [("negotiation", H+"header/encode_type.rs AcceptEncoding::best"), ("encoding and labelling", H+"response.rs write_type/write_slice_type")])

p("C14", "Query strings and urlencoded forms are read back exactly as written",
  "The pairs of a query string (between the first '?' and a '#') and of an application/x-www-form-urlencoded body are separated by '&' and split at their first '='; a piece without '=' has an empty value, empty pieces are ignored and the last value of a repeated name wins. Lookup, existence and count then agree for every name, query and body values never mix, and the path is unaffected.",
  ["inputs"], "every query string and every form body",
  "The tests parse one query string and one form with two plain fields.",
  [H+"url/location.rs", H+"requester.rs", S+"context.rs"],
  [("query parsing", H+"url/location.rs Location::from_bytes"), ("form parsing", H+"requester.rs parse_body"), ("access", S+"context.rs req_param/req_form")])

p("C15", "Multipart form data arrives with exact names, filenames and bytes",
  "For every well-formed multipart/form-data body the handler finds each field part under its name with exactly its value, and each file part under its name with its filename, size and exactly its bytes, whatever the content in which no line begins with the delimiter (including line breaks, text resembling boundaries, empty content and binary data), the order of parts, the order and case of part headers and the boundary chosen. Field and file parts are kept apart, the last part of a repeated name wins, and parts not sent are absent.",
  ["inputs"], "every list of parts, every content and boundary",
  "One test parses one body with LF line endings taken from a file; carriage returns, empty parts, binary content and missing part headers are not sampled.",
  [H+"requester.rs", H+"values.rs", H+"header/content_type.rs"],
  [("part scanner", H+"requester.rs parse_body"), ("disposition parameters", H+"requester.rs disposition_param"), ("storage", H+"values.rs MultipartValues")])

p("C16", "Concurrent connections are isolated, and a handler panic stays contained",
  "However many connections are served concurrently, each response is the one computed from its own request, with no header, parameter, cookie or body of another, and each request is handled exactly once. A handler that panics costs only its own connection: it is closed at once, all other requests are still answered correctly, and the server keeps its full concurrency: it runs exactly as many handlers at once as its pool size, when that many are asked for.",
  ["schedules", "fault_sequences"], "every interleaving of requests on concurrent connections, with handlers that panic at any point",
  "No test starts the server, let alone with concurrent clients or panicking handlers.",
  [S+"server.rs", U+"concurrent/thread_pool.rs", S+"context.rs"],
  [("one pool task per connection", S+"server.rs listener"), ("per-request context", S+"server.rs exec_stream"), ("worker replacement", U+"concurrent/thread_pool.rs Sentinel")])

p("C17", "The client sends exactly the request its URL describes",
  "For every URL `[scheme://][user:password@]host[:port][/path][?query][#fragment]` the client connects to the given host and port (80 for http or no scheme, 443 for https) and sends one well-formed GET request whose target is the URL's path ('/' if empty) and query unchanged and without the fragment, with `Host: host:port`, and with Basic credentials exactly when the URL has them. Malformed URLs, and a request that names no address, yield an error and no connection; no input makes the client panic.",
  ["inputs"], "every URL",
  "The tests parse a few complete URLs and print them; URLs without path, port or scheme, with '=' or '?' in odd places, and the bytes actually sent are never checked.",
  [H+"url/url.rs", H+"url/location.rs", H+"responser.rs", C+"client.rs", H+"url/authority/userinfo.rs"],
  [("URL parsing", H+"url/url.rs URL::from"), ("request composition", C+"client.rs default_request"), ("serialisation", H+"responser.rs Responser::request")])

p("C18", "The client reports exactly the response the server sent, or an error",
  "For every response a server may send, in any segmentation, the client returns its version, status, all header values in order and set cookies, and as body exactly the announced Content-Length bytes (all remaining bytes if none is announced). A response that is cut off, announces an invalid length, or whose status line is not understood is an error, never a wrong or shortened body, and never a panic or a hang once the connection is closed.",
  ["inputs", "fault_sequences"], "every response byte string, cut off at any point, in any segmentation",
  "No test feeds the client a response.",
  [H+"responser.rs", H+"status.rs", H+"version.rs", H+"header/header.rs"],
  [("head parsing", H+"responser.rs parse_response_line/parse_response_header"), ("body extraction", H+"responser.rs fill_body")])

p("C19", "Cookies survive being written and read back",
  "A cookie set on a response appears on the wire with exactly its name, value and the attributes given, and reading that Set-Cookie header gives back an equal cookie (apart from an expiry instant); several cookies keep their order, and sent back in a Cookie header a handler finds the same names and values in that order. Reading tolerates attribute names in any case and order, unknown attributes and '=' inside values, never lets an attribute overwrite the cookie's name or value, and reports an unusable Max-Age or Expires as an error.",
  ["inputs", "programs"], "every cookie and every Set-Cookie header value",
  "The tests print cookies built with fixed attributes; none reads back what it wrote.",
  [H+"header/cookie.rs", H+"header/header.rs", H+"response.rs"],
  [("writing", H+"header/cookie.rs Cookie::to_string"), ("reading", H+"header/cookie.rs Cookie::read_set_cookies"), ("builder", H+"header/cookie.rs CookieBuilder")])

p("C20", "Value maps behave as ordered multimaps under every operation sequence",
  "After every sequence of operations a value map answers like a map from names to value lists: set replaces all values of a name, add appends one, get and delete give the first value, delete removes the name, and existence, list, count and snapshot agree with that; names are case-sensitive and independent of each other. A file map likewise keeps the last file per name and returns the replaced or deleted one, and a clone is unaffected by later changes.",
  ["histories"], "every sequence of operations on any names and values",
  "The tests call a few operations once on a fresh map.",
  [H+"values.rs"],
  [("multimap", H+"values.rs Values"), ("file map", H+"values.rs MultipartValues")])

p("C21", "Methods, versions, statuses and media types are read exactly and print back",
  "A method or version is read from exactly its own text (an empty method means GET) and nothing else, every status code has exactly its standard reason phrase and all other codes are rejected, and a Content-Type value is read as its media type whatever parameters and blanks follow, with the boundary of a form; unknown types count as application/octet-stream. What was read prints back as its standard text, equals itself and nothing else in every form of comparison, and methods are safe, cacheable or not idempotent as HTTP defines.",
  ["inputs"], "every byte string, every status code, every pair of tokens",
  "The tests try five method texts, two status codes and two media types; length-dispatched tables fail on single entries no test names.",
  [H+"method.rs", H+"version.rs", H+"status.rs", H+"header/content_type.rs"],
  [("method table", H+"method.rs Method::from_bytes/as_str"), ("versions", H+"version.rs Version::from_str"), ("status table", H+"status.rs Status::from_code"), ("media types", H+"header/content_type.rs ContentType::from_str")])
p("C22", "Times add, count, print and parse by the calendar",
  "A Time holds an instant to the nanosecond. Making one from a number of minutes to nanoseconds, adding or subtracting any number of any unit (or any Duration) is exact integer arithmetic at every size and sign; the num_* counts are that instant in whole units, truncated towards zero, and None only when the number does not fit in 64 bits. Formatting prints, for every strftime field of date and time, the value the proleptic Gregorian calendar gives for the second the instant lies in, before 1970 as well as after, in leap and century years and in ISO weeks, and all ways of formatting agree. Parsing reads exactly the instant the fields of the text name, to the nanosecond, for every year from 1 to 9999, and refuses fields that name no date or time (a 30 February, a 366th day, an hour 24, a 53rd week the year lacks, a weekday that does not match) and text left over. Two times are equal exactly when they are the same instant, and now is the present.",
  ["inputs", "histories"], "all units and numbers within the range of a Duration; years 1 to 9999; all strftime fields of date and time in any order; text with each field in and out of range; random texts and formats",
  "the tests format one instant in 2021 and parse seven texts of that instant; they visit no leap day, year end, century, time before 1970 or field out of range",
  [U+"time.rs"], [("Time::parse_from_str, Time::format, add_*, num_*", U+"time.rs")])
p("C23", "Base 16, base 64 and compression lose nothing and accept no damage",
  "Encoding any bytes in base 16 or base 64 gives the standard text (lower case; padded), the same from every kind of argument, and decoding it gives the bytes back; text that is not an encoding (a character outside the alphabet, padding in the wrong place or number, a wrong length) is an error and never decodes to something. Compressing any bytes at any level as deflate, zlib or gzip gives a stream that a reader of RFC 1951, 1950 and 1952 reads as exactly those bytes, stored as they are at level 0; decompressing gives the bytes back at every size, reads every well-formed stream whoever wrote it (stored, fixed and dynamic blocks, all optional fields of a gzip header), and never takes a stream that ends early, or whose checksum, length or header is wrong, for data.",
  ["inputs"], "every byte string, every text, every stream, levels 0 to 9",
  "the tests encode and compress one short text each and undo it; no test decodes anything damaged, foreign, large or empty",
  [U+"compress.rs", U+"cryptos/base64.rs", U+"cryptos/hex.rs"], [("compression", U+"compress.rs Compress"), ("base 64", U+"cryptos/base64.rs"), ("base 16", U+"cryptos/hex.rs")])
p("C24", "Every log record reaches exactly the files configured for it",
  "After config_log, a record is written iff its level is within that of the module whose package contains its target most closely (the main module if none does; packages are compared name by name); it is then written once to that module's dir/name.log and, while modules are additive, to the file of the next package above and finally to the main file and the console, and nowhere else. Directory, size and count a module leaves empty are those of the main module. Each line is one JSON object with the level, target and message as logged, whatever characters they contain. When a file exceeds its size it becomes name-log-1.log, older parts move up by one and only the configured number is kept; nothing else is ever lost, also not by reconfiguring, by several threads logging at once or by a configuration changing meanwhile, where each record goes wholly by the old or the new one. A configuration that cannot be is refused without disturbing the one in force or later ones, and before any configuration nothing is written and nothing left behind. A server brings its own configuration into force when listener is called on it, also if it then cannot listen: that of its last set_log, otherwise the default one (every level, file tmp/starry-http-server.log).",
  ["histories", "schedules"], "every configuration of modules, every sequence of records and reconfigurations, records from several threads",
  "the tests set one configuration and log a few lines without looking at any file",
  [U+"log.rs", "src/server/server.rs"], [("LogModule::config, config_log", U+"log.rs"), ("Server::set_log, Server::listener", "src/server/server.rs"), ("rolling_appender", U+"log.rs"), ("GLOBAL_LOG", U+"log.rs")])

p("C25", "A fetch runs one handler and reports exactly what that handler composed",
  "For a URL whose host and port lead to a server of the library, HttpClient::get runs exactly one handler there, the one its path reaches; the handler sees the path, query parameters, path field, host and credentials of the URL, whatever characters they contain, with the fragment left out. get reports exactly the status, headers, cookies and body the handler composed (and its version if it set one), at every size, and the handler's own copy of the response (get_response) says the same before it is sent. Without a route no handler runs and get reports the refusal. A handler that panics before answering makes its own get fail, one that panics afterwards does not; in both cases all other and later fetches are answered as if nothing had happened. This holds while other clients use the same server, well-behaved or not, and when the handler itself fetches from another server.",
  ["inputs", "histories", "schedules"], "every URL of the server's routes, every sequence of response operations, concurrent clients on shared servers, with and without compression configured",
  "no test connects the client with the server; each side is only tried alone on a fixed message",
  ["src/client/client.rs", "src/server/server.rs", "src/server/context.rs", H+"request.rs", H+"requester.rs", H+"response.rs", H+"responser.rs"],
  [("HttpClient::get", "src/client/client.rs"), ("serving a connection", "src/server/server.rs"), ("Context", "src/server/context.rs"), ("request and response codecs", H+"request.rs, responser.rs, requester.rs, response.rs")])

p("C26", "Servers, clones and listeners: routes are shared, settings own, listening exact",
  "A server made with HttpServer::new has no routes and shares nothing with another. A clone of a server shares its routes: one registered with either, before or after the cloning and also while listeners of either serve or by a handler while it runs, is served by all listeners of both and of their clones, and by no others; pool size, keepalive time and compression are each handle's own, beginning with those of the server it was cloned of, and a listener serves with those its handle had when it was called. HttpServer::listener takes whatever ToSocketAddrs gives (text, pair, list): it serves on the first address that is to be had, the earlier ones notwithstanding, on no other, with as many workers of its own as the pool size says, and while all of them are busy up to a hundred further connections wait and are served in the end; the same handle may listen several times. Without an address to be had (taken, not of this machine, unreadable, none at all) it returns an error, without panic and with no thread left behind, and the process and its other listeners go on as before.",
  ["histories", "schedules", "inputs"], "every sequence of making, cloning, setting, registering, listening and asking, with ports taken and left by others in between",
  "no test clones a server, listens twice, registers while a listener serves or lets listening fail",
  ["src/server/server.rs", "src/server/router.rs", "src/utils/concurrent/thread_pool.rs"],
  [("HttpServer::{new, router, set_*, listener}, Clone", "src/server/server.rs"), ("Root", "src/server/node.rs")])

p("C27", "A shortage of threads or descriptors harms only what it must, while it lasts",
  "When a serving process runs short of threads or file descriptors, connections may be ended unanswered or wait, but every response a client gets is the one its request asked for, in order and with nothing unasked in between, and no connection is kept without its idle limit. While only threads are short, the first request of every connection is answered and connections already kept go on. As soon as connections end, everything they held is given back, also while the shortage lasts: new connections are then served again as far as what is left suffices, and a worker lost to a panicking handler is replaced once a thread can be had. When the shortage is over, the server has its full strength and holds no descriptor or thread more than before. HttpClient::get in such a process returns an error, never panics.",
  ["fault_sequences", "schedules", "histories"], "every sequence of shortages of descriptors and threads with connections, requests, panics and clients that leave in between",
  "No test lets a descriptor or a thread be refused; every such branch of the server is unexecuted by the tests.",
  ["src/server/server.rs", "src/utils/concurrent/thread_pool.rs", "src/client/client.rs"],
  [("duplicating the stream, starting the idle check", "src/server/server.rs handle_connection, loop_exec"), ("accept errors", "src/server/server.rs HttpServer::listener"), ("replacing a worker", "src/utils/concurrent/thread_pool.rs ThreadPool::notify_check Fill")])

import sys
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
