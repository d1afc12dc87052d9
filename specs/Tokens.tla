------------------------------- MODULE Tokens -------------------------------
(* C21: the texts methods, versions, statuses and media types are read from    *)
(* and printed as, and what is said about them.                                *)
EXTENDS Bytes, TLC
S == INSTANCE Status
Method ==
    "OPTIONS" :> <<79,80,84,73,79,78,83>> @@
    "GET" :> <<71,69,84>> @@
    "POST" :> <<80,79,83,84>> @@
    "PUT" :> <<80,85,84>> @@
    "DELETE" :> <<68,69,76,69,84,69>> @@
    "HEAD" :> <<72,69,65,68>> @@
    "TRACE" :> <<84,82,65,67,69>> @@
    "CONNECT" :> <<67,79,78,78,69,67,84>> @@
    "PATCH" :> <<80,65,84,67,72>> @@
    "LINK" :> <<76,73,78,75>> @@
    "UNLINK" :> <<85,78,76,73,78,75>> @@
    "PRI" :> <<80,82,73>>
Methods == DOMAIN Method
Safe == {"GET", "HEAD", "OPTIONS", "TRACE"}
Cacheable == {"GET", "HEAD", "POST"}
Idempotent == {"PUT", "DELETE"}                \* GET and the like are idempotent by RFC 7231 but not to this library: left open
NotIdempotent == {"POST", "CONNECT", "PATCH"}
Documented == Methods \ {"LINK", "UNLINK", "PRI"}
\* the text, and no other, names the method; nothing at all stands for GET
ReadMethod(s) == IF s = <<>> THEN "GET" ELSE IF \E m \in Methods : Method[m] = s THEN CHOOSE m \in Methods : Method[m] = s ELSE "none"

Version == "HTTP/1.0" :> [t |-> <<72,84,84,80,47,49,46,48>>, minor |-> 0] @@ "HTTP/1.1" :> [t |-> <<72,84,84,80,47,49,46,49>>, minor |-> 1]
Versions == DOMAIN Version
ReadVersion(s) == IF \E v \in Versions : Version[v].t = s THEN CHOOSE v \in Versions : Version[v].t = s ELSE "none"

\* the constants of the library and their codes
StatusName ==
    "CONTINUE" :> 100 @@ "SWITCHING_PROTOCOLS" :> 101 @@ "PROCESSING" :> 102 @@ "OK" :> 200 @@
    "CREATED" :> 201 @@ "ACCEPTED" :> 202 @@ "NON_AUTHORITATIVE_INFORMATION" :> 203 @@ "NO_CONTENT" :> 204 @@
    "RESET_CONTENT" :> 205 @@ "PARTIAL_CONTENT" :> 206 @@ "MULTI_STATUS" :> 207 @@ "ALREADY_REPORTED" :> 208 @@
    "IM_USED" :> 226 @@ "MULTIPLE_CHOICES" :> 300 @@ "MOVED_PERMANENTLY" :> 301 @@ "FOUND" :> 302 @@
    "SEE_OTHER" :> 303 @@ "NOT_MODIFIED" :> 304 @@ "USE_PROXY" :> 305 @@ "TEMPORARY_REDIRECT" :> 307 @@
    "PERMANENT_REDIRECT" :> 308 @@ "BAD_REQUEST" :> 400 @@ "UNAUTHORIZED" :> 401 @@ "PAYMENT_REQUIRED" :> 402 @@
    "FORBIDDEN" :> 403 @@ "NOT_FOUND" :> 404 @@ "METHOD_NOT_ALLOWED" :> 405 @@ "NOT_ACCEPTABLE" :> 406 @@
    "PROXY_AUTHENTICATION_REQUIRED" :> 407 @@ "REQUEST_TIMEOUT" :> 408 @@ "CONFLICT" :> 409 @@ "GONE" :> 410 @@
    "LENGTH_REQUIRED" :> 411 @@ "PRECONDITION_FAILED" :> 412 @@ "PAYLOAD_TOO_LARGE" :> 413 @@ "URI_TOO_LONG" :> 414 @@
    "UNSUPPORTED_MEDIA_TYPE" :> 415 @@ "RANGE_NOT_SATISFIABLE" :> 416 @@ "EXPECTATION_FAILED" :> 417 @@ "IM_A_TEAPOT" :> 418 @@
    "MISDIRECTED_REQUEST" :> 421 @@ "UNPROCESSABLE_ENTITY" :> 422 @@ "LOCKED" :> 423 @@ "FAILED_DEPENDENCY" :> 424 @@
    "UPGRADE_REQUIRED" :> 426 @@ "PRECONDITION_REQUIRED" :> 428 @@ "TOO_MANY_REQUESTS" :> 429 @@ "REQUEST_HEADER_FIELDS_TOO_LARGE" :> 431 @@
    "UNAVAILABLE_FOR_LEGAL_REASONS" :> 451 @@ "INTERNAL_SERVER_ERROR" :> 500 @@ "NOT_IMPLEMENTED" :> 501 @@ "BAD_GATEWAY" :> 502 @@
    "SERVICE_UNAVAILABLE" :> 503 @@ "GATEWAY_TIMEOUT" :> 504 @@ "HTTP_VERSION_NOT_SUPPORTED" :> 505 @@ "VARIANT_ALSO_NEGOTIATES" :> 506 @@
    "INSUFFICIENT_STORAGE" :> 507 @@ "LOOP_DETECTED" :> 508 @@ "NOT_EXTENDED" :> 510 @@ "NETWORK_AUTHENTICATION_REQUIRED" :> 511
DebugText(c) == Dec(c) \o <<SP>> \o S!PhraseBytes[c]

Media ==
    "TEXT_HTML" :> <<116,101,120,116,47,104,116,109,108>> @@
    "TEXT_PLAIN" :> <<116,101,120,116,47,112,108,97,105,110>> @@
    "TEXT_XML" :> <<116,101,120,116,47,120,109,108>> @@
    "IMAGE_GIF" :> <<105,109,97,103,101,47,103,105,102>> @@
    "IMAGE_JPEG" :> <<105,109,97,103,101,47,106,112,101,103>> @@
    "IMAGE_PNG" :> <<105,109,97,103,101,47,112,110,103>> @@
    "APPLICATION_XHTML_XML" :> <<97,112,112,108,105,99,97,116,105,111,110,47,120,104,116,109,108,43,120,109,108>> @@
    "APPLICATION_XML" :> <<97,112,112,108,105,99,97,116,105,111,110,47,120,109,108>> @@
    "APPLICATION_ATOM_XML" :> <<97,112,112,108,105,99,97,116,105,111,110,47,97,116,111,109,43,120,109,108>> @@
    "APPLICATION_JSON" :> <<97,112,112,108,105,99,97,116,105,111,110,47,106,115,111,110>> @@
    "APPLICATION_PDF" :> <<97,112,112,108,105,99,97,116,105,111,110,47,112,100,102>> @@
    "APPLICATION_MS_WORD" :> <<97,112,112,108,105,99,97,116,105,111,110,47,109,115,119,111,114,100>> @@
    "APPLICATION_OCTET_STREAM" :> <<97,112,112,108,105,99,97,116,105,111,110,47,111,99,116,101,116,45,115,116,114,101,97,109>> @@
    "APPLICATION_X_WWW_FORM_URL_ENCODED" :> <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,119,119,119,45,102,111,114,109,45,117,114,108,101,110,99,111,100,101,100>>
tMulti == <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97>>
tBoundary == <<98,111,117,110,100,97,114,121,61>>
Unknown == "APPLICATION_OCTET_STREAM"
Texts == {Media[m] : m \in DOMAIN Media} \cup {tMulti}
Params(s) == LET ps == Tail(Split(s, SEMI)) IN [i \in DOMAIN ps |-> Trim(ps[i])]
Unquoted(v) == IF Len(v) >= 2 /\ v[1] = DQUOTE /\ v[Len(v)] = DQUOTE THEN SubSeq(v, 2, Len(v) - 1) ELSE v
\* what a Content-Type value stands for: a constant, a form with its boundary, or left open
ReadMedia(s) ==
    LET t  == Trim(Cut(s, SEMI).k)
        bs == SelectSeq(Params(s), LAMBDA p : Starts(p, tBoundary))
        v  == IF bs = <<>> THEN <<>> ELSE Unquoted(Drop(bs[1], Len(tBoundary)))
    IN  IF \E i \in DOMAIN s : (s[i] < 32 /\ s[i] # TAB) \/ s[i] >= 127 THEN [k |-> "open"]
        ELSE IF t \notin Texts THEN IF Lower(t) \in Texts THEN [k |-> "open"] ELSE [k |-> "const", n |-> Unknown]
        ELSE IF t # tMulti THEN [k |-> "const", n |-> CHOOSE m \in DOMAIN Media : Media[m] = t]
        ELSE IF Len(bs) > 1 \/ Has(v, DQUOTE) \/ (\E i \in DOMAIN Params(s) : LET p == Params(s)[i] IN ~Starts(p, tBoundary) /\ Starts(Lower(p), SubSeq(tBoundary, 1, 8)))
             THEN [k |-> "open"]
        ELSE IF bs = <<>> THEN [k |-> "const", n |-> Unknown]
        ELSE [k |-> "multi", b |-> v]
=============================================================================
