------------------------------ MODULE ObjRead ------------------------------
(* The read contract of objects: one fixed byte string, a read position, and    *)
(* reads that return exactly the addressed bytes.  Objects are built from parts  *)
(* (joined) and may be sliced.  Cells are the units of content: cell <<p, j>> is *)
(* the j-th cell of part p.  A set of cells may be bad: reads that need one      *)
(* fail.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxParts, MaxSize, MaxOff, MaxLen, MaxOps,
          Kinds,        \* how the object is made
          WithBad,      \* BOOLEAN: bad cells occur
          WithSlice,    \* BOOLEAN: slices occur
          SliceFrom,    \* set of slice starts considered
          Single        \* BOOLEAN: one positional read only (full enumeration)

VARIABLES cfg, content, pos, hist, run, done

vars == <<cfg, content, pos, hist, run, done>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Flat(parts) == FlattenSeq([i \in DOMAIN parts |-> [j \in 1..parts[i] |-> <<i, j - 1>>]])

Size == Len(content)

IsBad(c) == c \in cfg.bad

(* The bytes a read of len cells at off must return. *)
Want(off, len) ==
    IF off >= Size THEN <<>>
    ELSE SubSeq(content, off + 1, IF off + len < Size THEN off + len ELSE Size)

(* Number of leading good cells. *)
Good(s) == IF \E i \in DOMAIN s : IsBad(s[i])
           THEN (CHOOSE i \in DOMAIN s : IsBad(s[i]) /\ \A j \in 1..(i-1) : ~IsBad(s[j])) - 1
           ELSE Len(s)

(* The response: fail: an error must be reported and at most good cells returned;
   otherwise exactly the wanted cells; eof: nothing there, end of file must be
   reported; short: the end of the object was reached, end of file may be
   reported. *)
Response(off, len) ==
    LET w == Want(off, len) IN
    [bytes |-> w,
     fail  |-> Good(w) < Len(w),
     good  |-> Good(w),
     eof   |-> len > 0 /\ off >= Size,
     short |-> off + Len(w) >= Size]

PartSizes == 0..MaxSize

Cells(parts) == ToSet(Flat(parts))

Configs ==
    {[kind |-> k, parts |-> p, bad |-> b, lo |-> lo, n |-> n] :
        k \in Kinds, p \in SeqsUpTo(PartSizes, MaxParts), b \in {{}}, lo \in {0}, n \in {-1}}

BadSets(parts) == IF WithBad THEN {{}} \cup {{c} : c \in Cells(parts)} ELSE {{}}

Slices(total) == IF WithSlice THEN {<<0, -1>>} \cup {<<lo, n>> : lo \in (0..total) \cap SliceFrom, n \in 0..total}
                 ELSE {<<0, -1>>}

Init ==
    \E k \in Kinds, p \in SeqsUpTo(PartSizes, MaxParts) :
      \E b \in BadSets(p) :
        \E s \in {x \in Slices(Len(Flat(p))) : x[1] + x[2] <= Len(Flat(p))} :
          /\ cfg = [kind |-> k, parts |-> p, bad |-> b, lo |-> s[1], n |-> s[2]]
          /\ content = IF s[2] < 0 THEN Flat(p) ELSE SubSeq(Flat(p), s[1] + 1, s[1] + s[2])
          /\ pos = 0
          /\ hist = <<>>
          /\ run = <<>>
          /\ done = FALSE

Log(e) == hist' = Append(hist, e)

ReadAt(off, len) ==
    /\ Log([op |-> "readat", off |-> off, len |-> len, r |-> Response(off, len)])
    /\ UNCHANGED <<cfg, content, pos, run, done>>

(* After a failing sequential read the position is where the returned bytes end;
   the specification leaves open how many good bytes were returned, so the driver
   seeks back. *)
Read(len) ==
    LET r == Response(pos, len) IN
    /\ Log([op |-> "read", off |-> pos, len |-> len, r |-> r])
    /\ pos' = IF r.fail THEN pos ELSE pos + Len(r.bytes)
    /\ run' = IF r.fail THEN run ELSE run \o r.bytes
    /\ UNCHANGED <<cfg, content, done>>

Seek(whence, to) ==
    /\ Log([op |-> "seek", whence |-> whence, delta |->
              CASE whence = 0 -> to [] whence = 1 -> to - pos [] whence = 2 -> to - Size,
            to |-> to])
    /\ pos' = to
    /\ run' = SubSeq(content, 1, to)
    /\ UNCHANGED <<cfg, content, done>>

(* A seek outside the object: clamped or refused, then the position is restored. *)
WildSeek(whence, delta) ==
    /\ Log([op |-> "wildseek", whence |-> whence, delta |-> delta, to |-> pos])
    /\ UNCHANGED <<cfg, content, pos, run, done>>

Finish == /\ Len(hist) = MaxOps /\ ~done
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, content, pos, hist, run>>

Step ==
    /\ Len(hist) < MaxOps
    /\ \/ \E off \in 0..MaxOff, len \in 0..MaxLen : ReadAt(off, len)
       \/ ~Single /\ \E len \in 0..MaxLen : Read(len)
       \/ ~Single /\ \E w \in 0..2, to \in 0..Size : Seek(w, to)
       \/ ~Single /\ \E w \in {0, 2} : WildSeek(w, IF w = 0 THEN Size + 2 ELSE 2)
       \/ ~Single /\ \E w \in {0, 2} : WildSeek(w, IF w = 0 THEN -1 ELSE -(Size + 1))

Next == Step \/ Finish

Spec == Init /\ [][Next]_vars

(* Checked on the model: *)
PosInside == pos \in 0..Size
(* everything read from the start so far is exactly the content up to the position *)
RunIsPrefix == run = SubSeq(content, 1, pos)
(* a response never contains a cell from elsewhere *)
ResponsesRight ==
    \A i \in DOMAIN hist : hist[i].op \in {"read", "readat"} =>
        /\ \A j \in DOMAIN hist[i].r.bytes : hist[i].r.bytes[j] = content[hist[i].off + j]
        /\ hist[i].r.good <= Len(hist[i].r.bytes)

Emit == done =>
    PrintT("TRACE " \o ToJson([cfg |-> cfg, size |-> Size, ops |-> hist]))
=============================================================================
