------------------------------ MODULE Dispatch ------------------------------
(* Which driver serves an operation on a URL.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Forms,       \* set of <<form, scheme>>; scheme "bad" if the URL cannot be parsed
          Schemes,     \* schemes with a driver
          Caps         \* optional capabilities: create, remove, list, lock

(* spellings of URLs; "none": a scheme without driver, "bad": not a URL *)
AllForms == {
    <<"alpha://host/p", "alpha">>, <<"alpha:p", "alpha">>, <<"alpha:/p", "alpha">>,
    <<"ALPHA://host/P?q=1#f", "alpha">>, <<"Alpha:x", "alpha">>, <<"alph://host/p", "alph">>,
    <<"alphabet://host/p", "alphabet">>, <<"alphabets://host/p", "none">>, <<"alp://h/p", "none">>,
    <<"s3://bucket/key%20x", "s3">>, <<"S3://bucket/key", "s3">>, <<"http://host:80/x", "http">>,
    <<"https://host/x", "none">>, <<"file:///a/b", "file">>, <<"FILE:///a", "file">>, <<"file:a", "file">>,
    <<"/a/b", "file">>, <<"a/b", "file">>, <<"./a:b", "file">>, <<"../x", "file">>, <<"/", "file">>,
    <<".", "file">>, <<"", "file">>, <<"/a%20b", "file">>, <<"//host/alpha", "file">>, <<"?q", "file">>,
    <<"#f", "file">>, <<"/alpha:x", "file">>, <<"x/alpha://h", "file">>, <<"a+b:x", "none">>,
    <<"a.b://x", "none">>, <<"zero:", "none">>, <<"data:,x", "none">>, <<"c:/x/y", "none">>, <<"C:x", "none">>, <<"x://h/p", "none">>, <<"fil:///a", "none">>,
    <<"files:///a", "none">>, <<"file+x:/a", "none">>, <<":x", "bad">>, <<"1a://x", "bad">>,
    <<"alpha://[::1", "bad">>, <<"alpha://h/%zz", "bad">>, <<"/%", "bad">>, <<"a b:c", "bad">>,
    <<"alpha://h\t/", "bad">>, <<"alpha://host:port/", "bad">>, <<"-a:b", "bad">>, <<"alpha://h /x", "bad">>,
    <<"alpha ://h/x", "bad">>}

Ops == {"open", "opensize", "create", "remove", "stat", "readdir", "lock", "rlock", "visit"}
Needs(op) == CASE op \in {"open", "opensize", "stat"} -> "none" [] op = "create" -> "create" [] op = "remove" -> "remove"
               [] op \in {"readdir", "visit"} -> "list" [] op \in {"lock", "rlock"} -> "lock"

VARIABLES form, caps, op, served
vars == <<form, caps, op, served>>
Init == /\ form \in Forms /\ caps \in SUBSET Caps /\ op \in Ops /\ served = "pending"
Next == /\ served = "pending"
        /\ served' = IF form[2] \in Schemes /\ (Needs(op) = "none" \/ Needs(op) \in caps) THEN form[2] ELSE "error"
        /\ UNCHANGED <<form, caps, op>>
Spec == Init /\ [][Next]_vars

OwnScheme == served \notin {"pending", "error"} => served = form[2]
Refused == served # "pending" /\ form[2] \notin Schemes => served = "error"
Emit == served # "pending" => PrintT("TRACE " \o ToJson([form |-> form[1], caps |-> caps, op |-> op, served |-> served]))
=============================================================================
