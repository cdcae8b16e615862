------------------------------ MODULE HttpRead ------------------------------
(* One ranged read over HTTP: which answers of the server may become bytes.         *)
(* An answer has a status, a Content-Range, a Content-Length and a body, each right   *)
(* or wrong in some way.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Lens, Sampled

Retried == {429, 500, 503, 599}
Statuses == {200, 201, 203, 204, 206, 226, 301, 304, 307, 400, 401, 403, 404, 405, 410, 416, 451} \cup Retried
Trouble == {"reset", "garbage", "silence", "stall"}     \* no proper answer
Ranges == {"exact", "later", "earlier", "shorter", "longer", "absent", "noend", "nototal", "norange", "unit", "noslash", "huge",
           "overflow", "reversed", "beyond", "totalless", "totalmore", "zero", "negative", "junk", "blank", "twice", "case",
           "before", "after", "list", "signed"}
Lengths == {"exact", "less", "more", "absent", "chunked", "vast", "minus", "word"}
Bodies == {"full", "truncated", "empty", "extra", "stall"}

VARIABLES req, ans, out
vars == <<req, ans, out>>
NoAns == [status |-> 0, trouble |-> "none", cr |-> "none", cl |-> "none", body |-> "none"]

Need(r) == IF r.off >= r.size THEN 0 ELSE IF r.off + r.len > r.size THEN r.size - r.off ELSE r.len
Good == [status |-> 206, trouble |-> "none", cr |-> "exact", cl |-> "exact", body |-> "full"]

(* what may happen; "either": right bytes or an error *)
Outcome(r, a) ==
    IF r.len = 0 THEN "nothing"
    ELSE IF Need(r) = 0 THEN "end"
    ELSE IF a.trouble # "none" THEN "error"
    ELSE IF a.cl \in {"minus", "word"} /\ a.status # 204 /\ a.status # 304 THEN "error"
    ELSE IF a.status = 404 THEN "notfound"
    ELSE IF a.status # 206 THEN "error"
    ELSE IF a.cr \notin {"exact", "totalless", "totalmore", "nototal", "blank", "twice", "case"} THEN "error"
    ELSE IF a.cr = "totalless" /\ r.off + Need(r) < r.size THEN "error"     \* the resource has become shorter than the object
    ELSE IF a.cl \in {"less", "more", "vast"} THEN "error"
    ELSE IF a.body \in {"truncated", "empty", "stall"} THEN "error"
    ELSE IF a.cl \in {"absent", "chunked"} /\ a.body = "extra" THEN "error"
    ELSE IF a.cr = "exact" /\ a.cl = "exact" THEN "bytes"
    ELSE "either"

Init == req = [size |-> 0, off |-> 0, len |-> 0] /\ ans = NoAns /\ out = "none"
(* statuses other than 206 need fewer variations, retried ones one *)
Variations ==
       {[status |-> 206, trouble |-> "none", cr |-> c, cl |-> l, body |-> b] : c \in Ranges, l \in Lengths, b \in Bodies}
  \cup {[status |-> s, trouble |-> "none", cr |-> c, cl |-> l, body |-> b] :
            s \in Statuses \ (Retried \cup {206}), c \in {"exact", "absent"}, l \in {"exact", "chunked", "word"}, b \in {"full", "truncated"}}
  \cup {[status |-> s, trouble |-> "none", cr |-> "exact", cl |-> "exact", body |-> "full"] : s \in Retried}
  \cup {[status |-> 206, trouble |-> t, cr |-> "exact", cl |-> "exact", body |-> "full"] : t \in Trouble}
Ask == /\ out = "none"
       /\ IF Sampled
          THEN \E s \in {RandomElement(Sizes)}, l \in {RandomElement(Lens)}, a \in {RandomElement(Variations)} :
                 \E o \in {RandomElement(0..(s + 1))} : req' = [size |-> s, off |-> o, len |-> l] /\ ans' = a
          ELSE \E s \in Sizes, l \in Lens, a \in Variations : \E o \in 0..(s + 1) :
                 req' = [size |-> s, off |-> o, len |-> l] /\ ans' = a
       /\ out' = Outcome(req', ans')
Spec == Init /\ [][Ask]_vars

(* bytes are only taken from answers that name exactly the range asked for, complete *)
OnlyProven == out = "bytes" => ans.status = 206 /\ ans.cr = "exact" /\ ans.cl = "exact" /\ ans.body \in {"full", "extra"} /\ Need(req) > 0
RightIsTaken == out # "none" /\ Need(req) > 0 /\ req.len > 0 /\ ans = Good => out = "bytes"
Emit == out # "none" => PrintT("TRACE " \o ToJson([size |-> req.size, off |-> req.off, len |-> req.len, need |-> Need(req), ans |-> ans, out |-> out]))
=============================================================================
