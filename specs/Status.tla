------------------------------- MODULE Status -------------------------------
(* The status codes and their standard reason phrases (RFC 7231, 2518, 4918,  *)
(* 5842, 3229, 6585, 7725, 2774, 2295, 7538, 7540, 2324).                     *)
LOCAL INSTANCE TLC
Phrases ==
    100 :> "Continue" @@ 101 :> "Switching Protocols" @@ 102 :> "Processing" @@
    200 :> "OK" @@ 201 :> "Created" @@ 202 :> "Accepted" @@ 203 :> "Non Authoritative Information" @@ 204 :> "No Content" @@
    205 :> "Reset Content" @@ 206 :> "Partial Content" @@ 207 :> "Multi-Status" @@ 208 :> "Already Reported" @@ 226 :> "IM Used" @@
    300 :> "Multiple Choices" @@ 301 :> "Moved Permanently" @@ 302 :> "Found" @@ 303 :> "See Other" @@ 304 :> "Not Modified" @@
    305 :> "Use Proxy" @@ 307 :> "Temporary Redirect" @@ 308 :> "Permanent Redirect" @@
    400 :> "Bad Request" @@ 401 :> "Unauthorized" @@ 402 :> "Payment Required" @@ 403 :> "Forbidden" @@ 404 :> "Not Found" @@
    405 :> "Method Not Allowed" @@ 406 :> "Not Acceptable" @@ 407 :> "Proxy Authentication Required" @@ 408 :> "Request Timeout" @@
    409 :> "Conflict" @@ 410 :> "Gone" @@ 411 :> "Length Required" @@ 412 :> "Precondition Failed" @@ 413 :> "Payload Too Large" @@
    414 :> "URI Too Long" @@ 415 :> "Unsupported Media Type" @@ 416 :> "Range Not Satisfiable" @@ 417 :> "Expectation Failed" @@
    418 :> "I'm a teapot" @@ 421 :> "Misdirected Request" @@ 422 :> "Unprocessable Entity" @@ 423 :> "Locked" @@
    424 :> "Failed Dependency" @@ 426 :> "Upgrade Required" @@ 428 :> "Precondition Required" @@ 429 :> "Too Many Requests" @@
    431 :> "Request Header Fields Too Large" @@ 451 :> "Unavailable For Legal Reasons" @@
    500 :> "Internal Server Error" @@ 501 :> "Not Implemented" @@ 502 :> "Bad Gateway" @@ 503 :> "Service Unavailable" @@
    504 :> "Gateway Timeout" @@ 505 :> "HTTP Version Not Supported" @@ 506 :> "Variant Also Negotiates" @@
    507 :> "Insufficient Storage" @@ 508 :> "Loop Detected" @@ 510 :> "Not Extended" @@ 511 :> "Network Authentication Required"
Codes == DOMAIN Phrases
\* the same as bytes
PhraseBytes ==
    100 :> <<67,111,110,116,105,110,117,101>> @@
    101 :> <<83,119,105,116,99,104,105,110,103,32,80,114,111,116,111,99,111,108,115>> @@
    102 :> <<80,114,111,99,101,115,115,105,110,103>> @@
    200 :> <<79,75>> @@
    201 :> <<67,114,101,97,116,101,100>> @@
    202 :> <<65,99,99,101,112,116,101,100>> @@
    203 :> <<78,111,110,32,65,117,116,104,111,114,105,116,97,116,105,118,101,32,73,110,102,111,114,109,97,116,105,111,110>> @@
    204 :> <<78,111,32,67,111,110,116,101,110,116>> @@
    205 :> <<82,101,115,101,116,32,67,111,110,116,101,110,116>> @@
    206 :> <<80,97,114,116,105,97,108,32,67,111,110,116,101,110,116>> @@
    207 :> <<77,117,108,116,105,45,83,116,97,116,117,115>> @@
    208 :> <<65,108,114,101,97,100,121,32,82,101,112,111,114,116,101,100>> @@
    226 :> <<73,77,32,85,115,101,100>> @@
    300 :> <<77,117,108,116,105,112,108,101,32,67,104,111,105,99,101,115>> @@
    301 :> <<77,111,118,101,100,32,80,101,114,109,97,110,101,110,116,108,121>> @@
    302 :> <<70,111,117,110,100>> @@
    303 :> <<83,101,101,32,79,116,104,101,114>> @@
    304 :> <<78,111,116,32,77,111,100,105,102,105,101,100>> @@
    305 :> <<85,115,101,32,80,114,111,120,121>> @@
    307 :> <<84,101,109,112,111,114,97,114,121,32,82,101,100,105,114,101,99,116>> @@
    308 :> <<80,101,114,109,97,110,101,110,116,32,82,101,100,105,114,101,99,116>> @@
    400 :> <<66,97,100,32,82,101,113,117,101,115,116>> @@
    401 :> <<85,110,97,117,116,104,111,114,105,122,101,100>> @@
    402 :> <<80,97,121,109,101,110,116,32,82,101,113,117,105,114,101,100>> @@
    403 :> <<70,111,114,98,105,100,100,101,110>> @@
    404 :> <<78,111,116,32,70,111,117,110,100>> @@
    405 :> <<77,101,116,104,111,100,32,78,111,116,32,65,108,108,111,119,101,100>> @@
    406 :> <<78,111,116,32,65,99,99,101,112,116,97,98,108,101>> @@
    407 :> <<80,114,111,120,121,32,65,117,116,104,101,110,116,105,99,97,116,105,111,110,32,82,101,113,117,105,114,101,100>> @@
    408 :> <<82,101,113,117,101,115,116,32,84,105,109,101,111,117,116>> @@
    409 :> <<67,111,110,102,108,105,99,116>> @@
    410 :> <<71,111,110,101>> @@
    411 :> <<76,101,110,103,116,104,32,82,101,113,117,105,114,101,100>> @@
    412 :> <<80,114,101,99,111,110,100,105,116,105,111,110,32,70,97,105,108,101,100>> @@
    413 :> <<80,97,121,108,111,97,100,32,84,111,111,32,76,97,114,103,101>> @@
    414 :> <<85,82,73,32,84,111,111,32,76,111,110,103>> @@
    415 :> <<85,110,115,117,112,112,111,114,116,101,100,32,77,101,100,105,97,32,84,121,112,101>> @@
    416 :> <<82,97,110,103,101,32,78,111,116,32,83,97,116,105,115,102,105,97,98,108,101>> @@
    417 :> <<69,120,112,101,99,116,97,116,105,111,110,32,70,97,105,108,101,100>> @@
    418 :> <<73,39,109,32,97,32,116,101,97,112,111,116>> @@
    421 :> <<77,105,115,100,105,114,101,99,116,101,100,32,82,101,113,117,101,115,116>> @@
    422 :> <<85,110,112,114,111,99,101,115,115,97,98,108,101,32,69,110,116,105,116,121>> @@
    423 :> <<76,111,99,107,101,100>> @@
    424 :> <<70,97,105,108,101,100,32,68,101,112,101,110,100,101,110,99,121>> @@
    426 :> <<85,112,103,114,97,100,101,32,82,101,113,117,105,114,101,100>> @@
    428 :> <<80,114,101,99,111,110,100,105,116,105,111,110,32,82,101,113,117,105,114,101,100>> @@
    429 :> <<84,111,111,32,77,97,110,121,32,82,101,113,117,101,115,116,115>> @@
    431 :> <<82,101,113,117,101,115,116,32,72,101,97,100,101,114,32,70,105,101,108,100,115,32,84,111,111,32,76,97,114,103,101>> @@
    451 :> <<85,110,97,118,97,105,108,97,98,108,101,32,70,111,114,32,76,101,103,97,108,32,82,101,97,115,111,110,115>> @@
    500 :> <<73,110,116,101,114,110,97,108,32,83,101,114,118,101,114,32,69,114,114,111,114>> @@
    501 :> <<78,111,116,32,73,109,112,108,101,109,101,110,116,101,100>> @@
    502 :> <<66,97,100,32,71,97,116,101,119,97,121>> @@
    503 :> <<83,101,114,118,105,99,101,32,85,110,97,118,97,105,108,97,98,108,101>> @@
    504 :> <<71,97,116,101,119,97,121,32,84,105,109,101,111,117,116>> @@
    505 :> <<72,84,84,80,32,86,101,114,115,105,111,110,32,78,111,116,32,83,117,112,112,111,114,116,101,100>> @@
    506 :> <<86,97,114,105,97,110,116,32,65,108,115,111,32,78,101,103,111,116,105,97,116,101,115>> @@
    507 :> <<73,110,115,117,102,102,105,99,105,101,110,116,32,83,116,111,114,97,103,101>> @@
    508 :> <<76,111,111,112,32,68,101,116,101,99,116,101,100>> @@
    510 :> <<78,111,116,32,69,120,116,101,110,100,101,100>> @@
    511 :> <<78,101,116,119,111,114,107,32,65,117,116,104,101,110,116,105,99,97,116,105,111,110,32,82,101,113,117,105,114,101,100>>
=============================================================================
