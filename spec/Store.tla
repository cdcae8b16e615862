------------------------------- MODULE Store -------------------------------
(* A tree-shaped object store with transactional writers: the file and the in-     *)
(* memory scheme.  Every operation has a specified response.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxDepth, Writers, Handles, MaxOps, Chunks,
          EagerDirs,      \* file scheme: parents are made, and occupied, when the writer is made
          Sampled

Paths == UNION {[1..d -> Names] : d \in 1..MaxDepth} \cup {<<>>}
Nobody == [p |-> <<>>, data |-> <<>>, st |-> "free"]
Unheld == [p |-> <<>>, data |-> <<>>, st |-> "free"]

VARIABLES dirs, files, wr, held, hist, done
vars == <<dirs, files, wr, held, hist, done>>

Init == /\ dirs = {<<>>} /\ files = <<>> /\ wr = [w \in Writers |-> Nobody] /\ held = [h \in Handles |-> Unheld]
        /\ hist = <<>> /\ done = FALSE

Parent(p) == SubSeq(p, 1, Len(p) - 1)
Above(p) == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}
IsFile(p) == p \in DOMAIN files
IsDir(p) == p \in dirs
(* a proper prefix is a file *)
Through(p) == \E x \in Above(p) : IsFile(x)
Kids(p) == {x \in dirs \cup DOMAIN files : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p}
Busy(p) == EagerDirs /\ \E w \in Writers : wr[w].st # "free" /\ wr[w].p # <<>> /\ Parent(wr[w].p) = p

Log(e) == hist' = Append(hist, e)
Keep == UNCHANGED <<done>>

(* a writer of an impossible place is refused when made or when committed *)
Create(w, p) ==
    /\ wr[w].st = "free" /\ p # <<>>
    /\ IF Through(p) /\ EagerDirs
       THEN UNCHANGED <<wr, dirs>>
       ELSE /\ wr' = [wr EXCEPT ![w] = [p |-> p, data |-> <<>>, st |-> "open"]]
            /\ dirs' = IF EagerDirs THEN dirs \cup Above(p) ELSE dirs
    /\ Log([op |-> "create", w |-> w, p |-> p, ok |-> ~(Through(p) /\ EagerDirs)])
    /\ UNCHANGED <<files, held>> /\ Keep
Write(w, c) ==
    /\ wr[w].st = "open"
    /\ wr' = [wr EXCEPT ![w].data = Append(@, c)]
    /\ Log([op |-> "write", w |-> w, c |-> c, ok |-> TRUE])
    /\ UNCHANGED <<dirs, files, held>> /\ Keep
Fits(p) == ~Through(p) /\ ~IsDir(p)
Commit(w) ==
    /\ wr[w].st = "open"
    /\ LET p == wr[w].p ok == Fits(p) IN
       /\ Log([op |-> "commit", w |-> w, p |-> p, ok |-> ok, data |-> wr[w].data])
       /\ files' = IF ok THEN [x \in DOMAIN files \cup {p} |-> IF x = p THEN wr[w].data ELSE files[x]] ELSE files
       /\ dirs' = IF ok THEN dirs \cup Above(p) ELSE dirs
       /\ wr' = [wr EXCEPT ![w] = IF ok THEN Nobody ELSE [@ EXCEPT !.st = "failed"]]
    /\ UNCHANGED held /\ Keep
Abort(w) ==
    /\ wr[w].st \in {"open", "failed"}
    /\ wr' = [wr EXCEPT ![w] = Nobody]
    /\ Log([op |-> "abort", w |-> w, ok |-> TRUE])
    /\ UNCHANGED <<dirs, files, held>> /\ Keep

Missing(p) == ~IsFile(p) /\ ~IsDir(p) /\ ~Through(p)
Remove(p) ==
    LET ok == p # <<>> /\ (IsFile(p) \/ (IsDir(p) /\ Kids(p) = {} /\ ~Busy(p))) IN
    /\ files' = IF ok /\ IsFile(p) THEN [x \in DOMAIN files \ {p} |-> files[x]] ELSE files
    /\ dirs' = IF ok THEN dirs \ {p} ELSE dirs
    /\ Log([op |-> "remove", p |-> p, ok |-> ok, missing |-> Missing(p)])
    /\ UNCHANGED <<wr, held>> /\ Keep

Kind(p) == IF IsFile(p) THEN "file" ELSE IF IsDir(p) THEN "dir" ELSE "none"
Data(p) == IF IsFile(p) THEN files[p] ELSE <<>>
Stat(p) == /\ Log([op |-> "stat", p |-> p, kind |-> Kind(p), data |-> Data(p), missing |-> Missing(p)])
           /\ UNCHANGED <<dirs, files, wr, held>> /\ Keep
Read(p) == /\ Log([op |-> "read", p |-> p, kind |-> Kind(p), data |-> Data(p), missing |-> Missing(p)])
           /\ UNCHANGED <<dirs, files, wr, held>> /\ Keep
List(p) == /\ Log([op |-> "list", p |-> p, kind |-> Kind(p), missing |-> Missing(p),
                   kids |-> {[n |-> x[Len(x)], kind |-> Kind(x), data |-> Data(x)] : x \in Kids(p)}])
           /\ UNCHANGED <<dirs, files, wr, held>> /\ Keep
(* an open object keeps its content *)
Hold(h, p) == /\ held[h].st = "free" /\ IsFile(p)
              /\ held' = [held EXCEPT ![h] = [p |-> p, data |-> files[p], st |-> "open"]]
              /\ Log([op |-> "hold", h |-> h, p |-> p])
              /\ UNCHANGED <<dirs, files, wr>> /\ Keep
ReadHeld(h) == /\ held[h].st = "open"
               /\ held' = [held EXCEPT ![h] = Unheld]
               /\ Log([op |-> "held", h |-> h, data |-> held[h].data])
               /\ UNCHANGED <<dirs, files, wr>> /\ Keep

Known == dirs \cup DOMAIN files
Step ==
    /\ Len(hist) < MaxOps /\ ~done
    /\ IF Sampled
       THEN \E w \in {RandomElement(Writers)}, x \in {RandomElement(Paths)}, y \in {RandomElement(Known)}, k \in {RandomElement(1..20)},
               c \in {RandomElement(Chunks)}, h \in {RandomElement(Handles)}, z \in {RandomElement(Names)} :
              LET p == IF k % 2 = 0 THEN y ELSE IF k % 3 = 0 /\ Len(y) < MaxDepth THEN Append(y, z) ELSE x IN
              IF k <= 3 /\ wr[w].st = "free" /\ p # <<>> THEN Create(w, p)
              ELSE IF k <= 6 /\ wr[w].st = "open" THEN Write(w, c)
              ELSE IF k <= 10 /\ wr[w].st = "open" THEN Commit(w)
              ELSE IF k = 11 /\ wr[w].st \in {"open", "failed"} THEN Abort(w)
              ELSE IF k <= 13 THEN Remove(p)
              ELSE IF k = 14 THEN Stat(p)
              ELSE IF k = 15 THEN Read(p)
              ELSE IF k = 16 THEN List(p)
              ELSE IF k = 17 /\ held[h].st = "free" /\ IsFile(y) THEN Hold(h, y)
              ELSE IF k = 18 /\ held[h].st = "open" THEN ReadHeld(h)
              ELSE IF wr[w].st = "free" /\ x # <<>> THEN Create(w, x)
              ELSE List(y)
       ELSE \/ \E w \in Writers, p \in Paths : Create(w, p)
            \/ \E w \in Writers, c \in Chunks : Write(w, c)
            \/ \E w \in Writers : Commit(w) \/ Abort(w)
            \/ \E p \in Paths : Remove(p) \/ Stat(p) \/ Read(p) \/ List(p)
            \/ \E h \in Handles : ReadHeld(h) \/ \E p \in Paths : Hold(h, p)
Finish == Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<dirs, files, wr, held, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Tree == /\ <<>> \in dirs /\ dirs \cap DOMAIN files = {}
        /\ \A p \in Known \ {<<>>} : Parent(p) \in dirs
(* only commits and removals change what exists *)
OnlyCommits == [][files' # files => hist'[Len(hist')].op \in {"commit", "remove"} /\ hist'[Len(hist')].ok]_vars
Atomic == \A p \in DOMAIN files : \E i \in DOMAIN hist : hist[i].op = "commit" /\ hist[i].ok /\ hist[i].p = p /\ hist[i].data = files[p]
View == <<dirs, files, wr, held, Len(hist), done>>
Left == [x \in DOMAIN files |-> files[x]]
Emit == done => PrintT("TRACE " \o ToJson([ops |-> hist, dirs |-> dirs, files |-> {[p |-> x, data |-> files[x]] : x \in DOMAIN files}]))
=============================================================================
