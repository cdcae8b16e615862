------------------------------- MODULE Layout -------------------------------
(* When is a volume well formed?  A volume is described by a record that an       *)
(* independent reader extracts from the image:                                     *)
(*   pvd   descriptor fields, ok = identifiers, versions and both-endian copies     *)
(*   l, m  the two path tables                                                      *)
(*   dirs  directories in the order reached from the root, with their records        *)
(*   meta, space, full   sectors of metadata / of the volume / written               *)
(*   nz    sectors of the metadata that are not all zero                             *)
(* Lengths are [sec, rem]: whole or started sectors and bytes in the last one.       *)
EXTENDS Integers, Sequences, FiniteSets

Rng(f) == {f[i] : i \in DOMAIN f}

(* An extent takes at least one sector. *)
Sectors(n) == IF n = 0 THEN 1 ELSE n

Descriptors(s) ==
    /\ s.pvd.ok /\ s.term
    /\ s.pvd.block = 2048
    /\ s.space = s.pvd.space
    /\ s.metarem = 0

TablesAgree(s) ==
    /\ s.tablesize
    /\ s.l = s.m
    /\ s.l # <<>>
    /\ s.l[1].parent = 1 /\ s.l[1].id = "00"
    /\ \A i \in 2..Len(s.l) : s.l[i].parent < i /\ s.l[i - 1].parent <= s.l[i].parent
    /\ \A i, j \in 2..Len(s.l) : i < j => <<s.l[i].parent, s.l[i].id>> # <<s.l[j].parent, s.l[j].id>>

(* The directories of the tree and the path table are the same, numbered alike. *)
TableMatchesTree(s) ==
    /\ Len(s.l) = Len(s.dirs)
    /\ LET num(d) == CHOOSE i \in DOMAIN s.l : s.l[i].loc = d.start IN
       \A k \in DOMAIN s.dirs :
          LET d == s.dirs[k] IN
          /\ \E i \in DOMAIN s.l : s.l[i].loc = d.start
          /\ s.l[num(d)].id = d.id
          /\ s.l[num(d)].parent = num(s.dirs[d.parent])

SelfAndParent(s) ==
    \A k \in DOMAIN s.dirs :
        LET d == s.dirs[k] p == s.dirs[d.parent] IN
        /\ Len(d.recs) >= 2
        /\ d.recs[1].id = "00" /\ d.recs[1].dir
        /\ d.recs[1].start = d.start /\ d.recs[1].sec = d.sec /\ d.recs[1].rem = 0
        /\ d.recs[2].id = "01" /\ d.recs[2].dir
        /\ d.recs[2].start = p.start /\ d.recs[2].sec = p.sec
        /\ (k = 1) = (d.parent = k)

RootAgrees(s) ==
    LET r == s.dirs[1] IN
    /\ s.pvd.root.start = r.start /\ s.pvd.root.sec = r.sec /\ s.pvd.root.rem = 0

(* No record straddles a sector; both-endian fields agree; parts of one file      *)
(* follow each other, all but the last flagged; no name twice.                      *)
RecordsFit(s) ==
    \A k \in DOMAIN s.dirs :
        LET d == s.dirs[k] IN
        /\ \A i \in DOMAIN d.recs :
             LET r == d.recs[i] IN
             /\ r.ok
             /\ r.off \div 2048 = (r.off + r.len - 1) \div 2048
             /\ r.off + r.len <= d.sec * 2048
             /\ (i > 1 => d.recs[i - 1].off + d.recs[i - 1].len <= r.off)
             /\ (i > 2 => r.dir \in BOOLEAN /\ ~(r.id \in {"00", "01"}))
        /\ \A i \in DOMAIN d.recs :
             d.recs[i].more <=> (i < Len(d.recs) /\ d.recs[i + 1].id = d.recs[i].id)
        /\ \A i, j \in DOMAIN d.recs :
             (i < j /\ d.recs[i].id = d.recs[j].id) => \A m \in i..j : d.recs[m].id = d.recs[i].id

(* Parts of one file are contiguous, all but the last a whole number of sectors. *)
PartsContiguous(s) ==
    \A k \in DOMAIN s.dirs : \A i \in DOMAIN s.dirs[k].recs :
        LET r == s.dirs[k].recs[i] IN
        r.more => /\ i < Len(s.dirs[k].recs) /\ r.rem = 0 /\ r.sec > 0
                  /\ s.dirs[k].recs[i + 1].start = r.start + r.sec

(* Everything that takes whole sectors. *)
FileExtents(s) ==
    UNION {{<<s.dirs[k].recs[i].start, Sectors(s.dirs[k].recs[i].sec)>> :
               i \in {x \in DOMAIN s.dirs[k].recs : s.dirs[k].recs[x].kind = "file"}} : k \in DOMAIN s.dirs}

Count(s) == LET n[k \in 0..Len(s.dirs)] ==
                    IF k = 0 THEN 0
                    ELSE n[k - 1] + Cardinality({x \in DOMAIN s.dirs[k].recs : s.dirs[k].recs[x].kind = "file"})
            IN n[Len(s.dirs)]

TableSectors(s) == Sectors((s.pvd.ptsize + 2047) \div 2048)

Fixed(s) ==
    {<<0, 16>>, <<16, 1>>, <<17, 1>>, <<s.pvd.l, TableSectors(s)>>, <<s.pvd.m, TableSectors(s)>>}
    \cup {<<s.dirs[k].start, s.dirs[k].sec>> : k \in DOMAIN s.dirs}

Continuations(s) ==
    UNION {UNION {Rng(s.dirs[k].recs[i].ce) : i \in DOMAIN s.dirs[k].recs} : k \in DOMAIN s.dirs}
NumContinuations(s) ==
    LET per(d) == LET n[i \in 0..Len(d.recs)] == IF i = 0 THEN 0 ELSE n[i - 1] + Len(d.recs[i].ce) IN n[Len(d.recs)]
        t[k \in 0..Len(s.dirs)] == IF k = 0 THEN 0 ELSE t[k - 1] + per(s.dirs[k])
    IN t[Len(s.dirs)]

Overlap(a, b) == a # b /\ a[1] < b[1] + b[2] /\ b[1] < a[1] + a[2]

NoOverlap(s) ==
    LET cont == {<<c.lba, 1>> : c \in Continuations(s)}
        whole == Fixed(s) \cup cont \cup FileExtents(s)
    IN /\ Cardinality(Fixed(s)) = 5 + Len(s.dirs)
       /\ Cardinality(FileExtents(s)) = Count(s)
       /\ Fixed(s) \cap cont = {} /\ Fixed(s) \cap FileExtents(s) = {} /\ cont \cap FileExtents(s) = {}
       /\ \A a, b \in whole : ~Overlap(a, b)
       /\ Cardinality(Continuations(s)) = NumContinuations(s)
       /\ \A c \in Continuations(s) : c.len > 0 /\ c.off >= 0 /\ c.off + c.len <= 2048
       /\ \A c, e \in Continuations(s) : (c # e /\ c.lba = e.lba) => (c.off + c.len <= e.off \/ e.off + e.len <= c.off)

Inside(s) ==
    /\ \A x \in Fixed(s) \cup {<<c.lba, 1>> : c \in Continuations(s)} : x[1] >= 0 /\ x[1] + x[2] <= s.meta
    /\ \A x \in FileExtents(s) : x[1] >= s.meta /\ x[1] + x[2] <= s.space
    /\ s.meta <= s.space
    /\ s.full \in {-1, s.space}

(* Nothing undescribed holds data; what pads described areas is zero. *)
OnlyDescribed(s) ==
    /\ s.dirty = 0
    /\ \A n \in Rng(s.nz) : \/ \E x \in Fixed(s) : n >= x[1] /\ n < x[1] + x[2]
                            \/ \E c \in Continuations(s) : c.lba = n
    /\ \A n \in Rng(s.nz) : n >= 16

Clauses(s) == [
    descriptors |-> Descriptors(s), tables |-> TablesAgree(s), table_tree |-> TableMatchesTree(s),
    self_parent |-> SelfAndParent(s), root |-> RootAgrees(s), records |-> RecordsFit(s), parts |-> PartsContiguous(s),
    overlap |-> NoOverlap(s), inside |-> Inside(s), described |-> OnlyDescribed(s)]

WellFormed(s) == \A c \in DOMAIN Clauses(s) : Clauses(s)[c]
Broken(s) == {c \in DOMAIN Clauses(s) : ~Clauses(s)[c]}
=============================================================================
