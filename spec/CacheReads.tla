----------------------------- MODULE CacheReads -----------------------------
(* Reads of several objects through a cache that must not be noticed.  Objects    *)
(* consist of cells; the source of a cell may fail for a while.  A read gives the *)
(* addressed cells.  It may fail only if a cell of a block it touches is failing   *)
(* at that moment.  Things done to the cache between reads (Meddling) change        *)
(* nothing.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumObjs, MaxSize, Bsizes, MaxLen, MaxOps,
          WithFault,
          Meddling,     \* set of interventions
          Durable,      \* blocks read successfully stay, until an intervention removes them
          Sampled

VARIABLES sizes, start, bsize, first, sure, bad, hist, done
vars == <<sizes, start, bsize, first, sure, bad, hist, done>>

Obj == 1..NumObjs

Init == /\ bsize \in Bsizes
        /\ IF Sampled THEN sizes = <<>> ELSE sizes \in [Obj -> 0..MaxSize]
        /\ start = sizes
        /\ first = bsize /\ sure = {}
        /\ bad = {} /\ hist = <<>> /\ done = FALSE

Setup == /\ sizes = <<>>
         /\ \E a \in {RandomElement(0..MaxSize)}, b \in {RandomElement(0..MaxSize)}, e \in {RandomElement(0..MaxSize)} :
              sizes' = SubSeq(<<a, b, e>>, 1, NumObjs) /\ start' = sizes'
         /\ UNCHANGED <<bsize, first, sure, bad, hist, done>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* cells of the blocks touched by a read *)
Touched(o, off, len) ==
    LET lo == Max(off, 0) hi == Min(off + len, sizes[o]) IN
    IF hi <= lo THEN {}
    ELSE {c \in 0..(sizes[o] - 1) : c \div bsize >= lo \div bsize /\ c \div bsize <= (hi - 1) \div bsize}

(* the touched blocks, by their extent *)
TouchedBlocks(o, off, len) == {<<o, (c \div bsize) * bsize, Min(bsize, sizes[o] - (c \div bsize) * bsize)>> : c \in Touched(o, off, len)}

Response(o, off, len) ==
    [from |-> Max(off, 0), size |-> sizes[o],
     n |-> IF off < 0 THEN 0 ELSE Max(0, Min(len, sizes[o] - off)),
     neg |-> off < 0,
     eof |-> len > 0 /\ off >= sizes[o],
     most |-> Cardinality(TouchedBlocks(o, off, len) \ sure),    \* blocks that may be fetched
     mayfail |-> \E c \in Touched(o, off, len) : <<o, c>> \in bad /\ <<o, (c \div bsize) * bsize, Min(bsize, sizes[o] - (c \div bsize) * bsize)>> \notin sure]

Log(e) == hist' = Append(hist, e)

Read(o, off, len) ==
    /\ Log([op |-> "read", o |-> o, off |-> off, len |-> len, r |-> Response(o, off, len)])
    /\ sure' = IF ~Durable \/ off < 0 \/ Response(o, off, len).mayfail THEN sure ELSE sure \cup TouchedBlocks(o, off, len)
    /\ UNCHANGED <<sizes, start, bsize, first, bad, done>>

Fail(o, c) == /\ WithFault /\ c < sizes[o] /\ <<o, c>> \notin bad
              /\ bad' = bad \cup {<<o, c>>}
              /\ Log([op |-> "fail", o |-> o, off |-> c]) /\ UNCHANGED <<sizes, start, bsize, first, sure, done>>
Recover == /\ bad # {} /\ bad' = {}
           /\ Log([op |-> "recover"]) /\ UNCHANGED <<sizes, start, bsize, first, sure, done>>

Meddle(m, b) == /\ m # "bsize" => b = bsize
                /\ bsize' = b
                /\ sure' = IF m \in {"bsize", "reopen", "restart"} THEN sure ELSE {}
                /\ Log([op |-> m, bsize |-> b]) /\ UNCHANGED <<sizes, start, first, bad, done>>

(* the object at an address is replaced by a longer or shorter one with the same beginning *)
Resize(o, n) == /\ n # sizes[o] /\ sizes' = [sizes EXCEPT ![o] = n]
                /\ Log([op |-> "resize", o |-> o, len |-> n]) /\ UNCHANGED <<start, bsize, first, sure, bad, done>>

Step ==
    /\ Len(hist) < MaxOps /\ ~done /\ sizes # <<>>
    /\ IF Sampled
       THEN \E o \in {RandomElement(Obj)}, w \in {RandomElement(1..20)},
               off \in {RandomElement(-1..(MaxSize + 1))}, len \in {RandomElement(0..MaxLen)} :
              IF w = 1 /\ WithFault /\ off >= 0 /\ off < sizes[o] /\ <<o, off>> \notin bad THEN Fail(o, off)
              ELSE IF w <= 3 /\ bad # {} THEN Recover
              ELSE IF w = 4 /\ "resize" \in Meddling /\ off >= 0 /\ off <= MaxSize /\ off # sizes[o] THEN Resize(o, off)
              ELSE IF w <= 6 /\ Meddling \ {"resize"} # {} THEN \E m \in {RandomElement(Meddling \ {"resize"})}, b \in {RandomElement(Bsizes)} : Meddle(m, IF m = "bsize" THEN b ELSE bsize)
              ELSE IF w <= 10 /\ hist # <<>> /\ hist[Len(hist)].op = "read" /\ hist[Len(hist)].r.n > 0     \* go on where the last read ended
              THEN LET h == hist[Len(hist)] IN Read(h.o, h.off + h.r.n, h.len)
              ELSE Read(o, off, len)
       ELSE \/ \E o \in Obj, off \in -1..(MaxSize + 1), len \in 0..MaxLen : Read(o, off, len)
            \/ \E o \in Obj, c \in 0..MaxSize : Fail(o, c)
            \/ Recover
            \/ \E m \in Meddling \ {"resize"}, b \in Bsizes : Meddle(m, b)
            \/ "resize" \in Meddling /\ \E o \in Obj, n \in 0..MaxSize : Resize(o, n)

Finish == Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<sizes, start, bsize, first, sure, bad, hist>>
Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

ReadsInside == \A i \in DOMAIN hist : hist[i].op = "read" =>
    LET r == hist[i].r IN r.n >= 0 /\ (r.n > 0 => r.from + r.n <= r.size /\ ~r.eof /\ ~r.neg)
OnlyBadFail == \A i \in DOMAIN hist : hist[i].op = "read" /\ hist[i].r.mayfail =>
    \E j \in 1..(i - 1) : hist[j].op = "fail" /\ hist[j].o = hist[i].o /\ \A k \in j..i : hist[k].op # "recover"

Emit == done => PrintT("TRACE " \o ToJson([sizes |-> start, bsize |-> first, ops |-> hist]))
=============================================================================
