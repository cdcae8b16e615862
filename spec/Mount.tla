-------------------------------- MODULE Mount --------------------------------
(* The mount command over a burned disc: what the kernel is asked for, what the mounted   *)
(* view answers, and how the command ends.  The life of the process is in MountLife.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, ExtNames, BadNames, Dots, Rules, MaxDepth, MaxOps, NumObjs, Sizes, Styles, Bulk, Targets, Sampled,
          Absent, MaxReq,
          Flaws,     \* subset of {"nodisc", "nodir", "cut", "refused"}: why a mount may fail
          Late       \* numbers of requests that may come while the command unmounts

VARIABLES rule, objs, tree, hist, done, phase, flaw, allow, exit, calls, gone, got, acts
dvars == <<rule, objs, tree, hist, done>>
mvars == <<phase, flaw, allow, exit, calls, gone, got, acts>>
vars == <<dvars, mvars>>
D == INSTANCE Disc

Init == /\ D!Init /\ phase = "off" /\ flaw = "none" /\ allow = FALSE /\ exit = "none" /\ calls = <<>> /\ gone = {} /\ got = {} /\ acts = <<>>
Add == ~done /\ D!Next /\ UNCHANGED mvars

Start(f, a) ==
    /\ done /\ phase = "off" /\ flaw' = f /\ allow' = a
    /\ calls' = (IF f \in {"none", "refused"} THEN <<"mount">> ELSE <<>>)
    /\ IF f = "none" THEN phase' = "up" /\ exit' = "none" ELSE phase' = "over" /\ exit' = "fail"
    /\ UNCHANGED <<dvars, gone, got, acts>>

IsDir(p) == p \in DOMAIN tree /\ tree[p].k = "dir"
IsFile(p) == p \in DOMAIN tree /\ tree[p].k = "file"
IsLink(p) == p \in DOMAIN tree /\ tree[p].k = "link"
(* what one request for p is answered with *)
Want(k, p) ==
    CASE k = "stat" -> (IF p \in DOMAIN tree THEN "ok" ELSE "absent")
      [] k = "list" -> (IF IsDir(p) THEN "ok" ELSE "fail")
      [] k = "read" -> (IF ~IsFile(p) THEN "fail"
                        ELSE IF tree[p].o \in gone THEN (IF tree[p].o \in got THEN "okfail" ELSE "fail") ELSE "ok")
      [] k = "link" -> (IF IsLink(p) THEN "ok" ELSE "fail")
      [] k = "write" -> "fail"
Kinds == {"stat", "list", "read", "link", "write"}
(* requests that make no sense to the kernel are not sent *)
Sent(k, p) == CASE k = "stat" -> TRUE [] k = "list" -> IsDir(p) [] k = "read" -> IsFile(p) [] k = "link" -> IsLink(p) [] k = "write" -> IsDir(p)
Request(k, p) ==
    /\ phase = "up" /\ Len(acts) < MaxReq /\ Sent(k, p)
    /\ acts' = Append(acts, [op |-> k, p |-> p, want |-> Want(k, p)])
    /\ got' = (IF k = "read" /\ Want(k, p) = "ok" THEN got \cup {tree[p].o} ELSE got)
    /\ UNCHANGED <<dvars, phase, flaw, allow, exit, calls, gone>>
Gone(o) ==
    /\ phase = "up" /\ o \notin gone /\ objs[o].size # 0 /\ objs[o].style # "data" /\ Len(acts) < MaxReq
    /\ gone' = gone \cup {o} /\ acts' = Append(acts, [op |-> "gone", o |-> o, want |-> "ok"])
    /\ UNCHANGED <<dvars, phase, flaw, allow, exit, calls, got>>

(* "both" is a signal while the kernel closes the connection *)
Ways == {"int", "term", "umount", "both"}
End(how, busy, late) ==
    /\ phase = "up" /\ phase' = "over"
    /\ busy => how \in {"int", "term"}
    /\ late > 0 => how \in {"int", "term"}
    /\ exit' = (IF how = "both" THEN "any" ELSE IF busy THEN "fail" ELSE "ok")
    /\ calls' = (IF how \in {"int", "term"} THEN Append(calls, "unmount") ELSE calls)
    /\ acts' = Append(acts, [op |-> how, busy |-> busy, late |-> late, want |-> exit'])
    /\ UNCHANGED <<dvars, flaw, allow, gone, got>>

Asked == DOMAIN tree \cup {Append(p, a) : p \in DOMAIN tree, a \in Absent}
Life ==
    IF Sampled
    THEN IF phase = "off" THEN \E w \in {RandomElement(1..8)}, a \in {RandomElement(BOOLEAN)}, f \in {RandomElement(Flaws)} : Start(IF w = 1 THEN f ELSE "none", a)
         ELSE phase = "up" /\
              \E w \in {RandomElement(1..30)} :
                IF Len(acts) >= MaxReq \/ w = 1
                THEN \E h \in {RandomElement(Ways)}, b \in {RandomElement(1..3) = 1}, l \in {RandomElement(Late)} :
                       LET s == h \in {"int", "term"} IN End(h, b /\ s, IF s THEN l ELSE 0)
                ELSE IF w = 2 /\ \E o \in DOMAIN objs : ENABLED Gone(o)
                THEN \E o \in {RandomElement({x \in DOMAIN objs : ENABLED Gone(x)})} : Gone(o)
                ELSE \E k \in {RandomElement(Kinds)} :
                       LET c == {p \in Asked : Sent(k, p)} IN
                       IF c = {} THEN \E p \in {RandomElement(Asked)} : Request("stat", p) ELSE \E p \in {RandomElement(c)} : Request(k, p)
    ELSE \/ \E f \in Flaws \cup {"none"}, a \in BOOLEAN : Start(f, a)
         \/ \E k \in Kinds, p \in Asked : Request(k, p)
         \/ \E o \in DOMAIN objs : Gone(o)
         \/ \E h \in Ways, b \in BOOLEAN, l \in Late : End(h, b, l)
Next == Add \/ (done /\ Life)
Spec == Init /\ [][Next]_vars

(* the kernel is asked at most once to mount and once to unmount, never to unmount what it did not mount *)
Calls == calls \in {<<>>, <<"mount">>, <<"mount", "unmount">>}
(* nothing is answered without a mount, and a mount that failed is an error *)
Served == flaw # "none" => acts = <<>> /\ exit \in {"none", "fail"}
ReadOnly == \A i \in DOMAIN acts : acts[i].op = "write" => acts[i].want = "fail"
Ended == (phase = "over") <=> (exit # "none")
Emit == (phase = "over") =>
    PrintT("TRACE " \o ToJson([rule |-> rule, objs |-> objs, ops |-> hist, tree |-> D!TreeList, flaw |-> flaw, allow |-> allow,
                               calls |-> calls, exit |-> exit, acts |-> acts]))
==============================================================================
