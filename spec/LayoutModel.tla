---------------------------- MODULE LayoutModel ----------------------------
(* A sector allocator that lays out small trees one structure after the other:   *)
(* descriptors, path tables, directories level by level with their continuation    *)
(* areas, then files.  Every layout it can produce is well formed, and changing     *)
(* any one number of a layout makes it ill formed.                                   *)
EXTENDS Layout, TLC

CONSTANTS MaxDirs, MaxFiles

VARIABLES tree, s, phase

vars == <<tree, s, phase>>

(* parent of each directory, directories numbered level by level; files per directory with their length *)
Parents(n) == {p \in [1..n -> 1..n] : p[1] = 1 /\ \A i \in 2..n : p[i] < i /\ p[i - 1] <= p[i]}
Lengths == {[sec |-> 0, rem |-> 0], [sec |-> 1, rem |-> 5], [sec |-> 2, rem |-> 0]}

Trees == UNION {{[n |-> n, par |-> p, files |-> f, cont |-> c] :
                    p \in Parents(n), f \in UNION {[1..k -> (1..n) \X Lengths] : k \in 0..MaxFiles}, c \in SUBSET (1..n)} : n \in 1..MaxDirs}

Hex(i) == "d" \o ToString(i)

Kids(t, d) == {i \in 2..t.n : t.par[i] = d}

SeqOf(S) == LET q[k \in 0..Cardinality(S)] ==
                  IF k = 0 THEN <<>>
                  ELSE Append(q[k - 1], CHOOSE x \in S \ Rng(q[k - 1]) : \A y \in S \ Rng(q[k - 1]) : x <= y)
            IN q[Cardinality(S)]

Layout0(t) ==
    LET dstart[i \in 1..(t.n + 1)] == IF i = 1 THEN 20 ELSE dstart[i - 1] + 1 + (IF (i - 1) \in t.cont THEN 1 ELSE 0)
        meta == dstart[t.n + 1]
        fstart[j \in 1..(Len(t.files) + 1)] == IF j = 1 THEN meta ELSE fstart[j - 1] + Sectors(t.files[j - 1][2].sec)
        rec(off, id, st, sec, rem, dir, kind, ce) ==
            [off |-> off, len |-> 100, id |-> id, start |-> st, sec |-> sec, rem |-> rem, dir |-> dir, more |-> FALSE, ok |-> TRUE, kind |-> kind, ce |-> ce]
        ce(d) == IF d \in t.cont THEN <<[lba |-> dstart[d] + 1, off |-> 0, len |-> 40]>> ELSE <<>>
        recs(d) == <<rec(0, "00", dstart[d], 1, 0, TRUE, "dir", ce(d)), rec(100, "01", dstart[t.par[d]], 1, 0, TRUE, "dir", <<>>)>>
                   \o [k \in 1..Cardinality(Kids(t, d)) |->
                          LET x == SeqOf(Kids(t, d))[k] IN rec(100 + 100 * k, Hex(x), dstart[x], 1, 0, TRUE, "dir", <<>>)]
                   \o LET fs == SeqOf({j \in DOMAIN t.files : t.files[j][1] = d}) IN
                      [k \in 1..Len(fs) |-> rec(1000 + 100 * k, "f" \o ToString(fs[k]), fstart[fs[k]], t.files[fs[k]][2].sec, t.files[fs[k]][2].rem, FALSE, "file", <<>>)]
        table == [i \in 1..t.n |-> [id |-> IF i = 1 THEN "00" ELSE Hex(i), loc |-> dstart[i], parent |-> t.par[i]]]
        space == fstart[Len(t.files) + 1]
    IN [pvd |-> [ok |-> TRUE, block |-> 2048, space |-> space, ptsize |-> 10 * t.n, l |-> 18, m |-> 19,
                 root |-> [start |-> 20, sec |-> 1, rem |-> 0]],
        term |-> TRUE, tablesize |-> TRUE, l |-> table, m |-> table,
        dirs |-> [d \in 1..t.n |-> [start |-> dstart[d], sec |-> 1, parent |-> t.par[d], id |-> IF d = 1 THEN "00" ELSE Hex(d), recs |-> recs(d)]],
        meta |-> meta, metarem |-> 0, space |-> space, full |-> space, dirty |-> 0, nz |-> <<16, 17, 18, 19, 20>>]

Init == tree \in Trees /\ s = Layout0(tree) /\ phase = "laid"

Bump(a) == {a - 1, a + 1}

(* Change one number. *)
Corrupt ==
    /\ phase = "laid"
    /\ phase' = "corrupt"
    /\ UNCHANGED tree
    /\ \/ \E v \in Bump(s.space) : s' = [s EXCEPT !.space = v]
       \/ \E v \in Bump(s.pvd.space) : s' = [s EXCEPT !.pvd.space = v]
       \/ \E v \in Bump(s.pvd.l) : s' = [s EXCEPT !.pvd.l = v]
       \/ \E v \in Bump(s.pvd.root.start) : s' = [s EXCEPT !.pvd.root.start = v]
       \/ \E k \in DOMAIN s.l : \E v \in Bump(s.l[k].loc) : s' = [s EXCEPT !.l[k].loc = v]
       \/ \E k \in DOMAIN s.l : \E v \in Bump(s.l[k].loc) : s' = [s EXCEPT !.m[k].loc = v]
       \/ \E k \in DOMAIN s.l : \E v \in Bump(s.l[k].parent) : s' = [s EXCEPT !.l[k].parent = v, !.m[k].parent = v]
       \/ \E k \in DOMAIN s.dirs : \E i \in 1..2 : \E v \in Bump(s.dirs[k].recs[i].start) : s' = [s EXCEPT !.dirs[k].recs[i].start = v]
       \/ \E k \in DOMAIN s.dirs : \E i \in DOMAIN s.dirs[k].recs : s' = [s EXCEPT !.dirs[k].recs[i].more = TRUE]
       \/ \E k \in DOMAIN s.dirs : \E i \in DOMAIN s.dirs[k].recs : s' = [s EXCEPT !.dirs[k].recs[i].off = 2000]
       \/ \E k \in DOMAIN s.dirs : \E i \in DOMAIN s.dirs[k].recs :
             /\ s.dirs[k].recs[i].kind = "file"
             /\ s' = [s EXCEPT !.dirs[k].recs[i].start = @ - 1]
       \/ \E k \in DOMAIN s.dirs : \E i \in DOMAIN s.dirs[k].recs :
             /\ s.dirs[k].recs[i].kind = "file"
             /\ s' = [s EXCEPT !.dirs[k].recs[i].sec = @ + 2]
       \/ \E k \in DOMAIN s.dirs : \E i \in DOMAIN s.dirs[k].recs :
             /\ s.dirs[k].recs[i].ce # <<>>
             /\ \E d \in {-1, 2030} : s' = IF d = -1 THEN [s EXCEPT !.dirs[k].recs[i].ce[1].lba = @ - 1] ELSE [s EXCEPT !.dirs[k].recs[i].ce[1].off = d]
       \/ s' = [s EXCEPT !.nz = Append(@, 15)]
       \/ s' = [s EXCEPT !.dirty = 1]

Next == Corrupt
Spec == Init /\ [][Next]_vars

LaidWellFormed == phase = "laid" => WellFormed(s)
CorruptIllFormed == phase = "corrupt" => ~WellFormed(s)
=============================================================================
