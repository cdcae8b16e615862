------------------------------- MODULE S3Req -------------------------------
(* Requests made for operations on S3, Swift and HTTP URLs: the lookup of the region *)
(* of a bucket, which is remembered once it succeeded, and the operation itself, with *)
(* the options attached to the caller's context in some order.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Buckets, Opts, MaxOpts, MaxOps, Ambient, Sampled, Timeouts

Schemes == {"s3", "swift", "https"}
Verbs(s) == IF s = "https" THEN {"open", "stat", "remove"} ELSE {"open", "stat", "remove", "readdir", "create"}
Faults(s, v) == {"none", "denied"} \cup (IF v = "create" THEN {} ELSE {"slow"})
                \cup (IF s = "s3" THEN {"lookup-denied"} \cup (IF v = "create" THEN {} ELSE {"lookup-slow"}) ELSE {})
VARIABLES known, todo, op, phase, hist
vars == <<known, todo, op, phase, hist>>
View == <<known, todo, op, phase>>

Last(opts, S) == LET I == {i \in DOMAIN opts : opts[i] \in S}
                 IN IF I = {} THEN "none" ELSE opts[CHOOSE i \in I : \A j \in I : j <= i]
Own(s) == CASE s = "s3" -> [creds |-> {"s3c1", "s3c2"}, timeout |-> "s3t"]
            [] s = "swift" -> [creds |-> {"swc1", "swc2"}, timeout |-> "swt"]
            [] s = "https" -> [creds |-> {"authz1", "authz2"}, timeout |-> "httpt"]
Who(o) == LET x == Last(o.opts, Own(o.scheme).creds)
          IN IF x # "none" THEN x ELSE IF o.scheme = "https" THEN "nobody" ELSE IF Ambient THEN "ambient" ELSE "none"
Limited(o) == \E i \in DOMAIN o.opts : o.opts[i] = Own(o.scheme).timeout
Region(o) == IF o.scheme = "swift" THEN Last(o.opts, {"swr1", "swr2"}) ELSE "bucket"
NoOp == [scheme |-> "none"]

Init == known = {} /\ todo = MaxOps /\ op = NoOp /\ phase = "idle" /\ hist = <<>>
Ops == {[scheme |-> s, bucket |-> b, verb |-> v, opts |-> o, fault |-> f] : s \in Schemes, b \in Buckets, v \in {"open", "create"}, o \in UNION {[1..n -> Opts] : n \in 0..MaxOpts}, f \in {"none", "denied", "slow", "lookup-denied", "lookup-slow"}}
Begin ==
    /\ phase = "idle" /\ todo > 0 /\ todo' = todo - 1
    /\ IF Sampled
       THEN \E s \in {RandomElement({"s3", "s3", "swift", "https"})}, b \in {RandomElement(Buckets)}, n \in {RandomElement(0..MaxOpts)} :
            \E v \in {RandomElement(Verbs(s))}, o \in {[i \in 1..n |-> RandomElement(Opts)]} :
            \E f \in {IF RandomElement(1..3) = 1 THEN RandomElement(Faults(s, v)) ELSE "none"} :
              op' = [scheme |-> s, bucket |-> b, verb |-> v, opts |-> (IF Timeouts THEN <<"s3t", "swt">> ELSE <<>>) \o o, fault |-> f]
       ELSE \E o \in Ops : o.verb \in Verbs(o.scheme) /\ o.fault \in Faults(o.scheme, o.verb) /\ op' = o
    /\ phase' = IF op'.scheme = "s3" /\ op'.bucket \notin known THEN "lookup" ELSE "request"
    /\ UNCHANGED <<known, hist>>
Ended(looked, sent, result) ==
    /\ hist' = Append(hist, [op |-> op, lookup |-> looked, sent |-> sent, who |-> Who(op), region |-> Region(op), limited |-> Limited(op), result |-> result])
    /\ op' = NoOp /\ phase' = "idle"
Refused == /\ phase \in {"lookup", "request"} /\ Who(op) = "none"
           /\ Ended(FALSE, FALSE, "error") /\ UNCHANGED <<known, todo>>
Fails(o, prefix) == o.fault = prefix \o "denied" \/ (o.fault = prefix \o "slow" /\ Limited(o))
Lookup == /\ phase = "lookup" /\ Who(op) # "none" /\ UNCHANGED todo
          /\ IF Fails(op, "lookup-") THEN Ended(TRUE, FALSE, "error") /\ UNCHANGED known
             ELSE phase' = "asked" /\ known' = known \cup {op.bucket} /\ UNCHANGED <<op, hist>>
Request == /\ phase \in {"request", "asked"} /\ Who(op) # "none"
           /\ Ended(phase = "asked", TRUE, IF Fails(op, "") THEN "error" ELSE "ok") /\ UNCHANGED <<known, todo>>
Next == Begin \/ Refused \/ Lookup \/ Request
Spec == Init /\ [][Next]_vars

Unsigned == \A i \in DOMAIN hist : (hist[i].lookup \/ hist[i].sent) => hist[i].who # "none"
LookedUpOnce == \A i, j \in DOMAIN hist : (i < j /\ hist[i].op.scheme = "s3" /\ hist[j].op.scheme = "s3" /\ hist[i].op.bucket = hist[j].op.bucket /\ hist[i].sent) => ~hist[j].lookup
NotRemembered == \A b \in known : phase = "asked" \/ \E i \in DOMAIN hist : hist[i].lookup /\ hist[i].sent /\ hist[i].op.bucket = b
Stays == [][known \subseteq known']_vars
Emit == (todo = 0 /\ phase = "idle") => PrintT("TRACE " \o ToJson([ev |-> hist]))
=============================================================================
