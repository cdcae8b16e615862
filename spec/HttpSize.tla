------------------------------ MODULE HttpSize ------------------------------
(* Sizes and deletions over HTTP, and an object opened without a size.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxSize, Sampled

Statuses == {200, 201, 202, 204, 206, 304, 400, 401, 403, 404, 405, 410, 500, 503, 429}
VARIABLES mode, q, known, cur, hist, done
vars == <<mode, q, known, cur, hist, done>>
None == -1

(* answers to HEAD, to the download that replaces it, and to DELETE *)
HeadOut(h, g) ==
    CASE h.status = 404 -> "notfound"
      [] h.status = 200 /\ h.cl = "exact" -> "size"
      [] h.status = 405 /\ g.status = 404 -> "notfound"
      [] h.status = 405 /\ g.status = 200 /\ g.body = "full" -> "size"
      [] OTHER -> "error"
DelOut(s) == CASE s = 204 -> "ok" [] s \in {200, 202} -> "either" [] OTHER -> "error"

Heads == {[status |-> s, cl |-> c] : s \in Statuses, c \in {"exact", "absent"}}
Gets == {[status |-> s, cl |-> c, body |-> b] : s \in {200, 206, 204, 404, 403, 500, 405}, c \in {"exact", "chunked", "absent"}, b \in {"full", "truncated"}}
(* a body whose end is the end of the connection cannot be seen to be truncated *)
Sensible(g) == ~(g.cl = "absent" /\ g.body = "truncated")

Init == /\ mode \in {"head", "delete", "object"} /\ q = <<>> /\ known = None /\ done = FALSE
        /\ cur \in {0, 1, MaxSize \div 2} /\ hist = IF mode = "object" THEN <<[op |-> "resize", n |-> cur]>> ELSE <<>>
AskHead == /\ mode = "head" /\ ~done
           /\ \E h \in Heads, g \in Gets : (h.status # 405 => g = [status |-> 200, cl |-> "exact", body |-> "full"]) /\ Sensible(g)
                 /\ q' = <<h, g, HeadOut(h, g)>>
           /\ done' = TRUE /\ UNCHANGED <<mode, known, cur, hist>>
AskDelete == /\ mode = "delete" /\ ~done /\ \E s \in Statuses : q' = <<s, DelOut(s)>>
             /\ done' = TRUE /\ UNCHANGED <<mode, known, cur, hist>>

(* the object: the size found first is the size for ever, whatever the server does later *)
Learn == known' = IF known = None THEN cur ELSE known
Log(e) == hist' = Append(hist, e)
Min(a, b) == IF a < b THEN a ELSE b
Size == Learn /\ Log([op |-> "size", n |-> known']) /\ UNCHANGED cur
SeekEnd(k) == /\ Learn /\ k <= known' /\ Log([op |-> "seek", back |-> k, n |-> known' - k]) /\ UNCHANGED cur
Need(off, len) == IF off >= known' THEN 0 ELSE Min(len, known' - off)
Read(off, len) == /\ Learn
                  /\ Log([op |-> "read", off |-> off, len |-> len, need |-> Need(off, len),
                          out |-> IF Need(off, len) = 0 THEN "end" ELSE IF off + Need(off, len) > cur THEN "error"
                                  ELSE IF cur < known' THEN "either" ELSE "bytes"])
                  /\ UNCHANGED cur
Resize(n) == /\ cur' = n /\ Log([op |-> "resize", n |-> n]) /\ UNCHANGED known
Step == /\ mode = "object" /\ ~done /\ Len(hist) < MaxOps /\ UNCHANGED <<mode, q, done>>
        /\ IF Sampled
           THEN \E k \in {RandomElement(1..10)}, o \in {RandomElement(0..MaxSize)}, l \in {RandomElement(1..MaxSize)} :
                  IF k = 1 THEN Size ELSE IF k <= 3 THEN SeekEnd(Min(o, IF known = None THEN cur ELSE known)) ELSE IF k = 4 THEN Resize(o) ELSE Read(o, l)
           ELSE Size \/ (\E k \in 0..MaxSize : SeekEnd(k) \/ Resize(k)) \/ (\E o \in 0..MaxSize, l \in 1..MaxSize : Read(o, l))
Finish == mode = "object" /\ ~done /\ Len(hist) = MaxOps /\ done' = TRUE /\ UNCHANGED <<mode, q, known, cur, hist>>
Next == AskHead \/ AskDelete \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

OneSize == \A i \in DOMAIN hist : hist[i].op = "size" => hist[i].n = known
Fixed == [][known # None => known' = known]_vars
OnlyStated == done /\ mode = "head" => (q[3] = "size" => q[1].status \in {200, 405})
Emit == done => PrintT("TRACE " \o ToJson([mode |-> mode, q |-> q, ops |-> hist, start |-> MaxSize \div 2]))
=============================================================================
