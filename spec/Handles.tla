------------------------------- MODULE Handles -------------------------------
(* What is held open while discs are burned, loaded, read and closed, with failures in     *)
(* between: descriptors, mappings and the goroutines of reads.  Whoever has closed         *)
(* everything holds nothing.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, ExtNames, BadNames, Dots, Rules, MaxDepth, MaxOps, NumObjs, Sizes, Styles, Bulk, Targets, Sampled,
          MaxActs, MaxDiscs, MaxFiles, MaxReads,
          Loads,     \* subset of {"ok", "nodisc", "empty", "cut", "text", "gzhead", "gzcut", "words", "nohdr"}
          Ways       \* subset of {"all", "part", "past"}: what a read asks for

VARIABLES rule, objs, tree, hist, done,
          discs,     \* open discs
          files,     \* open files: handle -> [d, o]
          reads,     \* reads under way: number -> handle
          held,      \* what the process holds
          gone, num, acts, over
dvars == <<rule, objs, tree, hist, done>>
hvars == <<discs, files, reads, held, gone, num, acts, over>>
vars == <<dvars, hvars>>
D == INSTANCE Disc

Init == /\ D!Init /\ discs = {} /\ files = <<>> /\ reads = <<>> /\ held = {} /\ gone = {} /\ num = 0 /\ acts = <<>> /\ over = FALSE
Add == ~done /\ D!Next /\ UNCHANGED hvars

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Idle(d, f, r) == d = {} /\ DOMAIN f = {} /\ DOMAIN r = {}
Act(a) == acts' = Append(acts, [op |-> a.op, k |-> a.k, h |-> a.h, o |-> a.o, way |-> a.way, idle |-> Idle(discs', files', reads')])
Bare == [op |-> "", k |-> 0, h |-> 0, o |-> 0, way |-> ""]
Paths(k) == {p \in DOMAIN tree : tree[p].k = k}
Burned == {tree[p].o : p \in Paths("file")}
Room == Len(acts) < MaxActs

(* a load that fails keeps nothing *)
Load(w) ==
    /\ Room /\ Cardinality(discs) < MaxDiscs /\ num' = num + 1
    /\ IF w = "ok" THEN discs' = discs \cup {num'} /\ held' = held \cup {<<"mapping", num'>>}
       ELSE UNCHANGED <<discs, held>>
    /\ UNCHANGED <<dvars, files, reads, gone, over>>
    /\ Act([Bare EXCEPT !.op = "load", !.k = num', !.way = w])
Open(d, o) ==
    /\ Room /\ d \in discs /\ o \in Burned /\ Cardinality(DOMAIN files) < MaxFiles /\ num' = num + 1
    /\ files' = Ext(files, num', [d |-> d, o |-> o])
    /\ UNCHANGED <<dvars, discs, reads, held, gone, over>>
    /\ Act([Bare EXCEPT !.op = "open", !.k = num', !.h = d, !.o = o])
(* a read holds its source, and is over before its file is closed *)
Begin(h, w) ==
    /\ Room /\ h \in DOMAIN files /\ Cardinality(DOMAIN reads) < MaxReads /\ num' = num + 1
    /\ reads' = Ext(reads, num', h) /\ held' = held \cup {<<"source", num'>>}
    /\ UNCHANGED <<dvars, discs, files, gone, over>>
    /\ Act([Bare EXCEPT !.op = "begin", !.k = num', !.h = h, !.o = (IF files[h].d \in discs THEN files[h].o ELSE 0), !.way = w])
End(k) ==
    /\ k \in DOMAIN reads /\ reads' = Cut(reads, k) /\ held' = held \ {<<"source", k>>}
    /\ UNCHANGED <<dvars, discs, files, gone, num, over>>
    /\ Act([Bare EXCEPT !.op = "end", !.k = k])
CloseFile(h) ==
    /\ h \in DOMAIN files /\ \A k \in DOMAIN reads : reads[k] # h
    /\ files' = Cut(files, h) /\ UNCHANGED <<dvars, discs, reads, held, gone, num, over>>
    /\ Act([Bare EXCEPT !.op = "closefile", !.h = h])
(* a disc may be closed before its files, but not while they are read *)
CloseDisc(d) ==
    /\ d \in discs /\ \A k \in DOMAIN reads : files[reads[k]].d # d
    /\ discs' = discs \ {d} /\ held' = held \ {<<"mapping", d>>}
    /\ UNCHANGED <<dvars, files, reads, gone, num, over>>
    /\ Act([Bare EXCEPT !.op = "closedisc", !.h = d])
(* the whole disc is looked through by name *)
Walk(d) ==
    /\ Room /\ d \in discs /\ UNCHANGED <<dvars, discs, files, reads, held, gone, num, over>>
    /\ Act([Bare EXCEPT !.op = "walk", !.h = d])
(* another disc is burned: into place, or where nothing can be stored *)
Burn(w) ==
    /\ Room /\ UNCHANGED <<dvars, discs, files, reads, held, gone, num, over>>
    /\ Act([Bare EXCEPT !.op = "burn", !.way = w])
Gone(o) ==
    /\ Room /\ o \in Burned \ gone /\ objs[o].size # 0 /\ gone' = gone \cup {o}
    /\ UNCHANGED <<dvars, discs, files, reads, held, num, over>>
    /\ Act([Bare EXCEPT !.op = "gone", !.o = o])
Finish ==
    /\ (~Room \/ ~Sampled)
    /\ Idle(discs, files, reads) /\ over' = TRUE
    /\ UNCHANGED <<dvars, discs, files, reads, held, gone, num, acts>>

Closing == \/ (\E k \in DOMAIN reads : End(k)) \/ (\E h \in DOMAIN files : CloseFile(h)) \/ (\E d \in discs : CloseDisc(d))
AnyCall == \/ \E w \in Loads : Load(w)
           \/ \E d \in discs : Walk(d) \/ \E o \in Burned : Open(d, o)
           \/ \E h \in DOMAIN files, w \in Ways : Begin(h, w)
           \/ \E w \in {"ok", "fail"} : Burn(w)
           \/ \E o \in Burned : Gone(o)
Pick(S) == {RandomElement(S)}
Close1 == IF DOMAIN reads # {} THEN \E k \in Pick(DOMAIN reads) : End(k)
          ELSE IF DOMAIN files # {} /\ (discs = {} \/ RandomElement(1..3) > 1) THEN \E h \in Pick(DOMAIN files) : CloseFile(h)
          ELSE IF discs # {} THEN \E d \in Pick(discs) : CloseDisc(d) ELSE Finish
Open1 == IF discs = {} \/ (Cardinality(discs) < MaxDiscs /\ RandomElement(1..6) = 1)
         THEN \E r \in Pick(1..2), w \in Pick(Loads) : Load(IF r = 1 THEN "ok" ELSE w)
         ELSE IF Burned # {} /\ Cardinality(DOMAIN files) < MaxFiles /\ (DOMAIN files = {} \/ RandomElement(1..3) = 1)
         THEN \E d \in Pick(discs), o \in Pick(Burned) : Open(d, o)
         ELSE IF DOMAIN files # {} /\ Cardinality(DOMAIN reads) < MaxReads THEN \E h \in Pick(DOMAIN files), w \in Pick(Ways) : Begin(h, w)
         ELSE \E d \in Pick(discs) : Walk(d)
Sample ==
    \E w \in Pick(1..24) :
        IF ~Room \/ (w <= 8 /\ ~Idle(discs, files, reads)) THEN Close1
        ELSE IF w = 9 THEN \E v \in Pick({"ok", "fail"}) : Burn(v)
        ELSE IF w = 10 /\ \E o \in Burned \ gone : objs[o].size # 0 THEN \E o \in Pick({x \in Burned \ gone : objs[x].size # 0}) : Gone(o)
        ELSE Open1
Next == Add \/ (done /\ ~over /\ (IF Sampled THEN Sample ELSE AnyCall \/ Closing \/ Finish))
Spec == Init /\ [][Next]_vars

(* what is held is accounted for by something open *)
Accounted == \A x \in held : IF x[1] = "mapping" THEN x[2] \in discs ELSE x[2] \in DOMAIN reads
Released == Idle(discs, files, reads) => held = {}
FilesOfReads == \A k \in DOMAIN reads : reads[k] \in DOMAIN files
(* everything can be closed from anywhere *)
Closable == ~Idle(discs, files, reads) => ENABLED Closing
View == <<dvars, discs, files, reads, held, gone, num, Len(acts), over>>
Emit == over => PrintT("TRACE " \o ToJson([rule |-> rule, objs |-> objs, ops |-> hist, tree |-> D!TreeList, acts |-> acts]))
==============================================================================
