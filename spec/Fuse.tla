-------------------------------- MODULE Fuse --------------------------------
(* A burned disc behind the mounted file system, and the requests a kernel sends:     *)
(* lookups (each gives it a reference to an inode), forgets, attributes, links,         *)
(* listings, opens, reads and releases, while the disc's metadata or the files'          *)
(* sources may fail.  Inodes are named by paths, handles by the order of opening.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, ExtNames, BadNames, Dots, Rules, MaxDepth, MaxOps, NumObjs, Sizes, Styles, Bulk, Targets, Sampled,
          Absent,       \* names nobody burns
          MaxReq,       \* requests
          MaxForget,    \* largest number of references of one inode
          Faults,       \* subset of {"meta", "late", "src"}
          Focus         \* "refs" or "view": which requests are frequent

VARIABLES rule, objs, tree, hist, done, refs, handles, meta, src, scanned, req
dvars == <<rule, objs, tree, hist, done>>
fvars == <<refs, handles, meta, src, scanned, req>>
vars == <<dvars, fvars>>

D == INSTANCE Disc

IsDir(p) == p \in DOMAIN tree /\ tree[p].k = "dir"
Dirs == {p \in DOMAIN tree : tree[p].k = "dir"}
Files == {p \in DOMAIN tree : tree[p].k = "file"}
Links == {p \in DOMAIN tree : tree[p].k = "link"}
Count(p) == IF p \in DOMAIN refs THEN refs[p] ELSE 0
Known(p) == p = <<>> \/ Count(p) > 0
KnownSet == {p \in DOMAIN tree : Known(p)}

Init == D!Init /\ refs = (<<>> :> 0) /\ handles = <<>> /\ meta = "ok" /\ src = "ok" /\ scanned = {} /\ req = <<>>

Burn == ~done /\ D!Next /\ UNCHANGED fvars

Note(r) == req' = Append(req, r)
Seen(p) == scanned' = IF meta = "all" THEN scanned ELSE scanned \cup {p}

LookupWant(p, q) ==
    IF ~Known(p) THEN "error"
    ELSE IF meta = "ok" THEN (IF q \in DOMAIN tree THEN "ok" ELSE "ENOENT")
    ELSE IF meta = "all" /\ p \notin scanned THEN "EIO"
    ELSE IF q \in DOMAIN tree THEN "okEIO" ELSE IF p \in scanned THEN "ENOENTEIO" ELSE "lateENOENT"

Lookup(p, name) ==
    LET q == Append(p, name) w == LookupWant(p, q) IN
    /\ Count(q) < MaxForget
    /\ refs' = IF w = "ok" THEN [x \in DOMAIN refs \cup {q} |-> IF x = q THEN Count(q) + 1 ELSE refs[x]] ELSE refs
    /\ IF Known(p) THEN Seen(p) ELSE UNCHANGED scanned
    /\ Note([op |-> "lookup", p |-> p, name |-> name, want |-> w]) /\ UNCHANGED <<handles, meta, src>>
Forget(p, n) == /\ p # <<>> /\ n <= Count(p) /\ n > 0
                /\ refs' = [refs EXCEPT ![p] = @ - n]
                /\ Note([op |-> "forget", p |-> p, n |-> n, want |-> "ok"]) /\ UNCHANGED <<handles, meta, src, scanned>>
Ask(kind, p) == /\ Note([op |-> kind, p |-> p, want |-> IF Known(p) THEN "ok" ELSE "error"]) /\ UNCHANGED <<refs, handles, meta, src, scanned>>
List(p, plan) == /\ IsDir(p)
           /\ Note([op |-> "list", p |-> p, plan |-> plan, want |-> IF ~Known(p) THEN "error" ELSE IF meta = "ok" THEN "ok" ELSE IF meta = "all" /\ p \notin scanned THEN "EIO" ELSE "okEIO"])
           /\ (IF Known(p) THEN Seen(p) ELSE UNCHANGED scanned) /\ UNCHANGED <<refs, handles, meta, src>>
Open(p) == /\ handles' = IF Known(p) THEN Append(handles, [p |-> p, open |-> TRUE]) ELSE handles
           /\ Note([op |-> "open", p |-> p, h |-> Len(handles) + 1, want |-> IF Known(p) THEN "ok" ELSE "error"]) /\ UNCHANGED <<refs, meta, src, scanned>>
(* a handle of 0 was never given out *)
Read(h, off, len) ==
    LET w == IF h = 0 THEN "error" ELSE IF ~handles[h].open THEN "error" ELSE IF src = "ok" THEN "ok" ELSE "EIO" IN
    Note([op |-> "read", h |-> h, p |-> IF h = 0 THEN <<>> ELSE handles[h].p, off |-> off, len |-> len, want |-> w]) /\ UNCHANGED <<refs, handles, meta, src, scanned>>
Release(h) == /\ handles' = IF h = 0 THEN handles ELSE [handles EXCEPT ![h].open = FALSE]
              /\ Note([op |-> "release", h |-> h, want |-> IF h # 0 /\ (h # 0 => handles[h].open) THEN "ok" ELSE "error"]) /\ UNCHANGED <<refs, meta, src, scanned>>
Fail(f) == /\ IF f = "src" THEN src' = "bad" /\ meta' = meta ELSE meta' = (IF f = "meta" THEN "all" ELSE "late") /\ src' = src
           /\ Note([op |-> "fail", f |-> f, want |-> "ok"]) /\ UNCHANGED <<refs, handles, scanned>>
Mend == (meta # "ok" \/ src # "ok") /\ meta' = "ok" /\ src' = "ok" /\ Note([op |-> "mend", want |-> "ok"]) /\ UNCHANGED <<refs, handles, scanned>>

Below(p) == {x \in DOMAIN tree : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p}
Offs == {0, 1, 2, 3, 4, 5, 6, 7}      \* the driver's classes of offsets and lengths
Plans == 0..5

(* every request, in the exhaustive model *)
EveryOne ==
       \/ \E p \in Dirs, n \in Names \cup Absent : Lookup(p, n)
       \/ \E p \in DOMAIN refs, n \in 1..MaxForget : Forget(p, n)
       \/ \E p \in DOMAIN tree : Ask("attr", p)
       \/ \E p \in Links : Ask("readlink", p)
       \/ \E p \in Dirs : List(p, 0)
       \/ \E p \in Files : Len(handles) < 2 /\ Open(p)
       \/ \E h \in 0..Len(handles) : Read(h, 0, 0) \/ Release(h)
       \/ \E f \in Faults : Fail(f)
       \/ Mend

(* mostly of known inodes, sometimes of others *)
SomeOf(S) == LET k == S \cap KnownSet IN IF k # {} /\ RandomElement(1..8) # 1 THEN RandomElement(k) ELSE RandomElement(S)
RandomName(p) == IF Below(p) # {} /\ RandomElement(1..5) # 1 THEN LET q == RandomElement(Below(p)) IN q[Len(q)] ELSE RandomElement(Names \cup Absent)
Weights == IF Focus = "refs" THEN <<30, 45, 55, 58, 62, 72, 84, 95, 98>> ELSE <<32, 38, 48, 56, 74, 79, 92, 95, 98>>
Idle == Ask("attr", <<>>)
OneOf ==
    \E w \in {RandomElement(1..100)} :
      IF w <= Weights[1] THEN \E p \in {SomeOf(Dirs)} : \E n \in {RandomName(p)} : IF Count(Append(p, n)) < MaxForget THEN Lookup(p, n) ELSE Idle
      ELSE IF w <= Weights[2] THEN
        LET some == {x \in DOMAIN refs : Count(x) > 0} IN
        IF some = {} THEN Idle
        ELSE \E p \in {RandomElement(some)} : \E n \in {IF RandomElement(1..2) = 1 THEN Count(p) ELSE RandomElement(1..Count(p))} : Forget(p, n)
      ELSE IF w <= Weights[3] THEN \E p \in {SomeOf(DOMAIN tree)} : Ask("attr", p)
      ELSE IF w <= Weights[4] THEN IF Links = {} THEN Idle ELSE \E p \in {SomeOf(Links)} : Ask("readlink", p)
      ELSE IF w <= Weights[5] THEN \E p \in {SomeOf(Dirs)}, k \in {RandomElement(Plans)} : List(p, k)
      ELSE IF w <= Weights[6] THEN IF Files = {} THEN Idle ELSE \E p \in {SomeOf(Files)} : Open(p)
      ELSE IF w <= Weights[7] THEN \E h \in {RandomElement(0..Len(handles))}, o \in {RandomElement(Offs)}, l \in {RandomElement(Offs)} : Read(h, o, l)
      ELSE IF w <= Weights[8] THEN \E h \in {RandomElement(0..Len(handles))} : Release(h)
      ELSE IF w <= Weights[9] THEN IF Faults = {} THEN Idle ELSE \E f \in {RandomElement(Faults)} : Fail(f)
      ELSE IF meta # "ok" \/ src # "ok" THEN Mend ELSE Idle

Request == done /\ Len(req) < MaxReq /\ (IF Sampled THEN OneOf ELSE EveryOne) /\ UNCHANGED dvars
Next == Burn \/ Request
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Positive == \A p \in DOMAIN refs : refs[p] >= 0 /\ (p # <<>> => p \in DOMAIN tree)
HandlesOK == \A i \in DOMAIN handles : tree[handles[i].p].k = "file"
(* an inode answers exactly while it is referenced *)
Lives == \A i \in DOMAIN req : req[i].op \in {"attr", "open", "readlink"} =>
           LET got == Cardinality({j \in 1..(i - 1) : req[j].op = "lookup" /\ req[j].want = "ok" /\ Append(req[j].p, req[j].name) = req[i].p})
               gave == {j \in 1..(i - 1) : req[j].op = "forget" /\ req[j].p = req[i].p}
               given == IF gave = {} THEN 0 ELSE LET S[x \in SUBSET gave] == IF x = {} THEN 0 ELSE LET y == CHOOSE z \in x : TRUE IN req[y].n + S[x \ {y}] IN S[gave]
           IN (req[i].want = "ok") <=> (req[i].p = <<>> \/ got > given)
ReadsOpen == \A i \in DOMAIN req : (req[i].op = "read" /\ req[i].want # "error") =>
               ~ \E j \in 1..(i - 1) : req[j].op = "release" /\ req[j].h = req[i].h
Emit == (done /\ Len(req) = MaxReq) =>
    PrintT("TRACE " \o ToJson([rule |-> rule, objs |-> objs, ops |-> hist, tree |-> D!TreeList, req |-> req]))
=============================================================================
