"""What each check runs: TLC models, behaviour generators (module, cfg, quick, thorough, depth), harness drivers
with the trace specification that validates their recording."""
NET = "loopback TCP delivers bytes in order and undamaged; the harness records what its sockets and handlers saw"
TLC = "TLC and the operating system are trusted"

ROUTER = dict(
    note="Declarative routing rules and the trie of the implementation are compared in the model; servers are driven through registration and request histories.",
    models=[("MCRouter", "MCRouter.cfg")],
    models_thorough=[("MCRouter", "MCRouterDeep.cfg")],
    gens=[("RouterGen", "RouterGen.cfg", 30, 200, 31)],
    runs=[("router", "RouterTrace")],
    assumptions=[NET, TLC])

CHECKS = {
    "C01": ROUTER,
    "C02": ROUTER,
}

CHECKS["C03"] = dict(
    note="Filter chains are modelled step by step for concurrent requests; servers with random groups, routes and filters are driven over keep-alive and fresh connections.",
    models=[("Filters", "MCFilters.cfg")],
    models_thorough=[("Filters", "MCFiltersDeep.cfg")],
    gens=[("FiltersGen", "FiltersGen.cfg", 40, 250, 29)],
    runs=[("filters", "FiltersTrace")],
    assumptions=[NET, TLC, "filters and handlers that send more than one response themselves are out of scope"])

def POOL(driver, genname, note):
    return dict(
        note=note + " The implementation-level model (idle queue, task queue, notification channel, workers, manager, handle count) refines the abstract pool the traces are validated against.",
        models=[("Pool", "MCPool.cfg"), ("Pool", "MCPool2.cfg")],
        models_thorough=[("Pool", "MCPoolDeep.cfg"), ("Pool", "MCPoolDeep2.cfg")],
        gens=[("PoolGen", "PoolGen%s.cfg" % genname, 60, 400, 31)],
        runs=[(driver, "PoolTrace")],
        assumptions=[TLC, "a thread that can run is scheduled within 15 s", "interleavings on the code are those the operating system produced"])

CHECKS["C05"] = POOL("pool-plain", "Plain", "Scripts with gated, quick and nested tasks, filled queues, and multi-threaded stress.")
CHECKS["C06"] = POOL("pool-panic", "Panic", "Scripts and stress with panicking tasks; afterwards as many tasks as workers must run at once.")
CHECKS["C07"] = POOL("pool-close", "Close", "Handles are cloned and dropped in any order with work outstanding; afterwards every accepted task has run and no pool thread is left.")

def HTTP(pid, models, deep, note, depth=2):
    return dict(note=note, models=models, models_thorough=deep,
                gens=[("RequestGen", "RequestGen%s.cfg" % pid, 150, 1500, depth)], runs=[("http-" + pid, "RequestTrace")],
                assumptions=[NET, TLC, "requests are rendered by the harness from descriptors; the specification reads the bytes independently of them"])

READ = [("ReadLoop", "ReadLoop.cfg"), ("HeadScan", "HeadScan.cfg")]
READDEEP = [("ReadLoop", "ReadLoopDeep.cfg"), ("HeadScan", "HeadScanDeep.cfg")]
CHECKS["C08"] = HTTP("C08", READ, READDEEP,
    "A grammar of requests on bytes (Request.tla) is the oracle; the read loop and the byte-wise scanners of the implementation are compared with it in the model; generated requests are sent in many segmentations and what the handler saw is compared.")
CHECKS["C09"] = HTTP("C09", READ, READDEEP,
    "Faulty, truncated and fuzzed requests get the verdict of the request grammar (status, closed, no handler), with a half-sent and a fresh request of other clients around each.")
CHECKS["C14"] = HTTP("C14", READ[1:], READDEEP[1:],
    "Queries and urlencoded bodies are split by the specification and every lookup, existence and count is compared.")
CHECKS["C15"] = HTTP("C15", [("MCMultipart", "MCMultipart.cfg"), ("MCMultipart", "MCMultipart2.cfg")], [("MCMultipart", "MCMultipartDeep.cfg")],
    "Rendering then scanning is the identity for every small list of parts in the model; generated multipart bodies are sent to servers and every field and file is compared.")
CHECKS["C10"] = HTTP("C10", [("MCSession", "MCSession.cfg")], [("MCSession", "MCSessionDeep.cfg")],
    "The connection is modelled with worker, timer thread and their channel; sequences of requests are sent on one connection, answers, order, leftovers and closing compared with the request grammar.", depth=6)
CHECKS["C11"] = dict(
    note="The connection is modelled with worker, timer thread, their channel and time; connections with timed requests and pauses are driven and their ends compared with the deadline of the specification.",
    models=[("MCSession", "MCSession.cfg"), ("Timer", "MCTimer.cfg")],
    models_thorough=[("MCSession", "MCSessionDeep.cfg")],
    gens=[("SessionGen", "SessionGen.cfg", 30, 150, 3)],
    runs=[("keepalive", "SessionTrace")], exclusive=True,
    assumptions=[NET, TLC, "a thread that can run is scheduled within 300 ms in one of three attempts; closing too early is judged exactly (3 ms)"])
CHECKS["C16"] = dict(
    note="Listener, pool and connections with panicking handlers are modelled together; many concurrent connections are driven, every response, handler count and closing compared, and afterwards the full number of handlers must run at once.",
    models=[("Server", "MCServer.cfg")],
    models_thorough=[("Server", "MCServerDeep.cfg")],
    gens=[("ServerGen", "ServerGen.cfg", 60, 400, 3)],
    runs=[("concurrent", "ServerTrace")],
    assumptions=[NET, TLC, "interleavings on the code are those the operating system produced"])
def RESP(pid, note, models, deep, depth):
    return dict(note=note, models=models, models_thorough=deep,
                gens=[("ResponseGen", "ResponseGen%s.cfg" % pid, 200, 2000, depth)], runs=[("resp-" + pid, "ResponseTrace")],
                assumptions=[NET, TLC, "the harness's own flate2 decoders are trusted"])
CHECKS["C12"] = RESP("C12", "Every sequence of response operations of the model gives the header map, status, version and body that the declarative rules give for the whole sequence; generated and random handlers are run in servers and the bytes on the wire compared with those rules.",
                     [("MCResponse", "MCResponsePlain.cfg")], [("MCResponse", "MCResponseDeep.cfg")], 8)
CHECKS["C13"] = RESP("C13", "Negotiation and the encoded/plain rewriting of bodies are modelled with every sequence of writes; generated Accept-Encoding values and bodies are sent through servers, the coding compared with the negotiation rules and the body decoded and compared.",
                     [("MCResponse", "MCResponse.cfg")], [("MCResponse", "MCResponseDeep.cfg")], 5)
CHECKS["C19"] = dict(
    note="Writing a cookie and reading it back is the identity in the model for every order and case of its attributes; generated and random cookies and Set-Cookie values go through the code, servers and the client.",
    models=[("MCCookie", "MCCookie.cfg")],
    models_thorough=[("MCCookie", "MCCookieDeep.cfg")],
    gens=[("CookieGen", "CookieGen.cfg", 100, 1000, 6)],
    runs=[("cookies", "CookieTrace")],
    assumptions=[NET, TLC, "the instant of an expiry is not compared, only whether there is one"])
CHECKS["C20"] = dict(
    note="The implementation's representation is related to a map from names to value lists in the model for every operation sequence; generated and random histories on maps and their clones are replayed and every answer compared.",
    models=[("MCValues", "MCValues.cfg")],
    models_thorough=[("MCValues", "MCValuesDeep.cfg")],
    gens=[("ValuesGen", "ValuesGen.cfg", 60, 600, 13)],
    runs=[("values", "ValuesTrace")],
    assumptions=[TLC])

def CLIENT(pid, note, model):
    return dict(note=note, models=[(model, model + ".cfg")], models_thorough=[(model, model + "Deep.cfg")],
                gens=[("ClientGen", "ClientGen%s.cfg" % pid, 40, 400, 6)], runs=[("client-" + pid, "ClientTrace")],
                assumptions=[NET, TLC, "names other than 127.0.0.x and localhost do not lead to the listeners of the harness"])
CHECKS["C17"] = CLIENT("C17", "The scanner of URLs is compared with the grammar in the model; generated, damaged and fuzzed URLs are fetched from listeners (own ports, 80 and 443) that record the connections and the bytes of the request.", "MCUrl")
CHECKS["C18"] = CLIENT("C18", "The reader of responses is compared with their meaning in the model, cut off at every byte and with bytes replaced; generated, damaged, cut and reset responses are played to the client in many segmentations and what it reports is compared.", "MCAnswer")
CHECKS["C04"] = dict(
    note="Limiter threads, channel, recorded times, waiting requests and time are modelled together; bursts and trickles of requests on many connections are sent to limited routes and the times of sending and of handlers starting must leave room for admissions within the limit.",
    models=[("Limit", "MCLimit.cfg"), ("Limit", "MCLimit2.cfg"), ("MCLimitObs", "MCLimitObs.cfg")],
    models_thorough=[("Limit", "MCLimitDeep.cfg"), ("MCLimitObs", "MCLimitObsDeep.cfg")],
    gens=[("LimitGen", "LimitGen.cfg", 10, 80, 4)],
    runs=[("limits", "LimitTrace")], exclusive=True,
    assumptions=[NET, TLC, "wall clock and monotonic clock run at the same rate during a run", "admissions lie between the sending of a request and the start of its first filter or handler"])

CHECKS["C21"] = dict(
    note="The readers of the implementation agree with the tables of the specification for every text at most two edits away from a token in the model; all 65536 status codes, all comparisons and thousands of damaged tokens and media types go through the code.",
    models=[("MCTokens", "MCTokens.cfg"), ("MCTokens", "MCTokens2.cfg")],
    models_thorough=[("MCTokens", "MCTokensDeep.cfg"), ("MCTokens", "MCTokensDeep2.cfg")],
    gens=[("TokensGen", "TokensGen.cfg", 60, 600, 13)],
    runs=[("tokens", "TokensTrace")],
    assumptions=[TLC, "the tables of reason phrases and media types in the specification were transcribed from the RFCs"])
CHECKS["C22"] = dict(
    note="The specification's calendar is checked against day-by-day counting of a span of years in the model; the code is driven over years 1 to 9999 with generated fields at their bounds, and random instants at nanosecond granularity.",
    models=[("MCCalendar", "MCCalendar.cfg")],
    models_thorough=[("MCCalendar", "MCCalendarDeep.cfg")],
    gens=[("CalendarGen", "CalendarGen.cfg", 150, 1500, 13)],
    runs=[("times", "CalendarTrace")],
    assumptions=[TLC, "the local time zone of the process is UTC while Time::now is judged (it stores local wall-clock time)"])
CHECKS["C23"] = dict(
    note="The specification contains a complete reader of compressed streams, which in the model reads back everything its writer writes, cut or damaged at every byte; the code's streams are read by it symbol by symbol, and streams it writes, whole and damaged, are read by the code.",
    models=[("MCDeflate", "MCDeflate.cfg"), ("MCDeflate", "MCDeflate2.cfg")],
    models_thorough=[("MCDeflate", "MCDeflateDeep.cfg"), ("MCDeflate", "MCDeflateDeep2.cfg")],
    gens=[("CodecGen", "CodecGen.cfg", 150, 1500, 13)],
    runs=[("codecs", "CodecTrace")],
    assumptions=[TLC, "large data (4 kB to 2.5 MB) are compared in the driver, not by the specification"])
CHECKS["C24"] = dict(
    note="The model explores every sequence of records and reconfigurations over a few modules and checks what is kept; generated configurations, records, bursts of threads and switches of configuration are made with the code and every line on the disk and the console is accounted for.",
    models=[("MCLogging", "MCLogging.cfg"), ("MCLogging", "MCLogging2.cfg")],
    models_thorough=[("MCLogging", "MCLoggingDeep.cfg"), ("MCLogging", "MCLogging2.cfg")],
    gens=[("LoggingGen", "LoggingGen.cfg", 110, 900, 15), ("LoggingGen", "LoggingGenRoll.cfg", 14, 120, 25)],
    runs=[("logging", "LoggingTrace")],
    assumptions=[TLC, "the files are on a local file system nobody else writes to"])
CHECKS["C25"] = dict(
    note="Clients, connections arriving in pieces or cut, workers and handlers are composed in the model from the specifications of URLs, requests, responses and answers, and every fetch ends as its handler composed it; generated and random URLs and handlers are run with the library's client against its servers, alone and on shared servers with other clients, and both ends compared.",
    models=[("EndToEnd", "MCEndToEnd.cfg"), ("EndToEnd", "MCEndToEnd2.cfg")],
    models_thorough=[("EndToEnd", "MCEndToEnd.cfg"), ("EndToEnd", "MCEndToEndDeep.cfg")],
    gens=[("EndGen", "EndGen.cfg", 60, 600, 6)],
    runs=[("ends", "EndTrace")],
    assumptions=[NET, TLC])
CHECKS["C26"] = dict(
    note="The model interleaves listening calls that try their addresses one by one with registrations, clones, settings and strangers that take and leave ports, and says of the histories what is shared, what is each one's own and what listening comes to; generated histories are run with servers on real ports, their workers and kept connections are used up and watched, and every listener is asked every path in the end.",
    models=[("MCServers", "MCServers.cfg"), ("MCServers", "MCServers2.cfg")],
    models_thorough=[("MCServers", "MCServers.cfg"), ("MCServers", "MCServersDeep.cfg"), ("MCServers", "MCServersDeep2.cfg")],
    gens=[("ServersGen", "ServersGen.cfg", 60, 600, 25)],
    runs=[("servers", "ServersTrace")],
    assumptions=[NET, TLC, "nobody outside the check binds the ports of 127.0.0.1 between 10000 and 30000 that it uses while a history runs (histories in which somebody may have are repeated)"])
CHECKS["C27"] = dict(
    note="The model counts every descriptor and thread that accepting, duplicating, checking for idleness and replacing a worker take, and lets the environment say how many there are; it shows that nothing unasked is sent, that all is given back when the clients leave even while the shortage lasts, and that one who has the server to himself is served. Generated histories are run with a server in a process of its own whose limits are lowered and lifted, and what its clients saw and what it still holds in the end is judged.",
    models=[("MCScarcity", "MCScarcity.cfg"), ("MCScarcity", "MCScarcity2.cfg")],
    models_thorough=[("MCScarcity", "MCScarcity.cfg"), ("MCScarcity", "MCScarcity2.cfg"), ("MCScarcity", "MCScarcityDeep.cfg")],
    gens=[("ScarcityGen", "ScarcityGen.cfg", 120, 1200, 25)],
    runs=[("scarce", "ScarcityTrace")],
    assumptions=[NET, TLC, "a limit on the address space that has room for n more thread stacks stands for a system with n more threads"])
