------------------------------- MODULE Walker -------------------------------
(* Lookups on a disc.  What a lookup gives is a function of the tree alone       *)
(* (Resolve, the POSIX rules with lexical cleaning of the path asked for).  The   *)
(* walker keeps a cache of entries it has come across; CacheTransparent is the    *)
(* fact that resolving through any cache a history can produce changes nothing.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Paths

CONSTANTS
    Names,      \* tokens that are burned
    Absent,     \* tokens that are only looked up
    Dots,       \* subset of {"", ".", ".."}
    MaxDepth,   \* of burned paths
    TDepth,     \* of link targets
    MaxAdds, MaxLooks,
    Links,      \* n out of 4 additions are links
    Sampled

VARIABLES tree, adds, cache, looks, done
vars == <<tree, adds, cache, looks, done>>

Dir == [k |-> "dir"]
Exists(p) == p \in DOMAIN tree
IsDir(p) == Exists(p) /\ tree[p].k = "dir"
Burned == UNION {[1..k -> Names] : k \in 1..MaxDepth}
TargetsRaw == UNION {[1..k -> Names \cup Dots] : k \in 1..TDepth} \ {<<"">>}
Acceptable(p) == ~Exists(p) /\ \A a \in StrictPrefixes(p) : Exists(a) => IsDir(a)
With(p, node) ==
    LET missing == {a \in StrictPrefixes(p) : ~Exists(a)} IN
    [x \in DOMAIN tree \cup missing \cup {p} |->
        IF x = p THEN node ELSE IF x \in missing THEN Dir ELSE tree[x]]

---------------------------------------------------------------------------
(* Resolution.  Fuel bounds the links followed: a lookup that follows more than  *)
(* Must links may or may not be given up as a loop, one that follows more than    *)
(* Fuel (every one going round a cycle) has to be.                                 *)
Must == 8
Fuel == 50

Fail(e, n) == [r |-> e, p |-> <<>>, n |-> n]

RECURSIVE Res(_, _, _, _)
Res(at, rest, last, n) ==
    IF n > Fuel THEN Fail("ELOOP", n)
    ELSE IF rest = <<>> THEN [r |-> "ok", p |-> at, n |-> n]
    ELSE LET h == Head(rest) t == Tail(rest) IN
      IF ~IsDir(at) THEN Fail("ENOTDIR", n)
      ELSE IF h \in {"", "."} THEN Res(at, t, last, n)
      ELSE IF h = ".." THEN Res(IF at = <<>> THEN at ELSE Parent(at), t, last, n)
      ELSE LET next == Append(at, h) IN
        IF ~Exists(next) THEN Fail("ENOENT", n)
        ELSE IF tree[next].k = "link" /\ (last \/ t # <<>>)
             THEN Res(IF tree[next].abs THEN <<>> ELSE at, tree[next].t \o t, last, n + 1)
        ELSE Res(next, t, last, n)

Resolve(raw, last) == Res(<<>>, Clean(raw, TRUE), last, 0)

(* How the kinds of lookup treat a link at the end of the path. *)
Follows == [lstat |-> FALSE, stat |-> TRUE, open |-> TRUE, readdir |-> FALSE, walk |-> FALSE]
Kinds == DOMAIN Follows

Expect(kind, raw) ==
    LET r == Resolve(raw, Follows[kind]) IN
    IF r.r = "ELOOP" THEN "loop"
    ELSE IF r.n > Must THEN "any"
    ELSE IF r.r # "ok" THEN r.r
    ELSE IF kind = "readdir" /\ tree[r.p].k = "file" THEN "ENOTDIR"
    ELSE IF kind = "readdir" /\ tree[r.p].k = "link" THEN "any"
    ELSE "ok"

---------------------------------------------------------------------------
(* The cache: entries by path, without links in their parents' names. *)
Below(p) == {x \in DOMAIN tree : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p}

(* entries a lookup of the link-free path p comes across, if it starts from      *)
(* nothing: all directories next to the wanted entries, at most.                  *)
Scanned(p) == UNION {{x \in Below(SubSeq(p, 1, k)) : IsDir(x)} : k \in 0..(Len(p) - 1)} \cup {<<>>}

Longest(c, p) == CHOOSE k \in 0..Len(p) : SubSeq(p, 1, k) \in c /\ \A j \in (k + 1)..Len(p) : SubSeq(p, 1, j) \notin c

(* one link-free lookup through cache c, which maps paths to nodes *)
CachedLstat(c, p) ==
    IF \E k \in 0..Len(p) : SubSeq(p, 1, k) \in DOMAIN c
    THEN LET k == Longest(DOMAIN c, p) IN
         IF k = Len(p) THEN [r |-> "ok", node |-> c[p]]
         ELSE IF c[SubSeq(p, 1, k)].k # "dir" THEN [r |-> "ENOTDIR", node |-> Dir]
         ELSE LET bad == {j \in (k + 1)..Len(p) : ~Exists(SubSeq(p, 1, j)) \/ (j < Len(p) /\ ~IsDir(SubSeq(p, 1, j)))} IN
              IF bad = {} THEN [r |-> "ok", node |-> tree[p]]
              ELSE LET j == CHOOSE x \in bad : \A y \in bad : x <= y IN
                   [r |-> IF Exists(SubSeq(p, 1, j)) THEN "ENOTDIR" ELSE "ENOENT", node |-> Dir]
    ELSE LET bad == {j \in 1..Len(p) : ~Exists(SubSeq(p, 1, j)) \/ (j < Len(p) /\ ~IsDir(SubSeq(p, 1, j)))} IN
         IF bad = {} THEN [r |-> "ok", node |-> tree[p]]
         ELSE LET j == CHOOSE x \in bad : \A y \in bad : x <= y IN
              [r |-> IF Exists(SubSeq(p, 1, j)) THEN "ENOTDIR" ELSE "ENOENT", node |-> Dir]

NoCache == [x \in {} |-> Dir]
Remember(c, S) == [x \in DOMAIN c \cup S |-> IF x \in DOMAIN c THEN c[x] ELSE tree[x]]

---------------------------------------------------------------------------
Init == /\ tree = (<<>> :> Dir) /\ adds = <<>> /\ cache = NoCache /\ looks = <<>> /\ done = FALSE

Add(p, node) ==
    /\ Acceptable(p)
    /\ tree' = With(p, node)
    /\ adds' = Append(adds, [path |-> p, node |-> node])
    /\ UNCHANGED <<cache, looks, done>>

FileNode == [k |-> "file", o |-> Len(adds) + 1]
LinkNode(raw, abs) ==
    LET a == Rooted(raw, abs) IN
    [k |-> "link", raw |-> raw, rabs |-> abs, abs |-> a, t |-> Clean(raw, a)]

Adding ==
    /\ looks = <<>> /\ Len(adds) < MaxAdds /\ ~done
    /\ IF Sampled
       THEN \E p \in {RandomElement({x \in Burned : Acceptable(x)})}, w \in {RandomElement(1..4)} :
              IF w > Links THEN Add(p, FileNode)
              ELSE \E raw \in {RandomElement(TargetsRaw)}, abs \in {RandomElement(BOOLEAN)} :
                     Add(p, LinkNode(raw, abs))
       ELSE \E p \in Burned : Add(p, FileNode) \/ (Links > 0 /\ \E raw \in TargetsRaw, abs \in BOOLEAN : Add(p, LinkNode(raw, abs)))

(* What is looked up: a burned path with something after it, or anything. *)
Asked == LET C == Names \cup Absent \cup Dots IN
         {<<>>} \cup {<<a>> : a \in C} \cup {<<a, b>> : a \in C, b \in C}

Look(kind, raw) ==
    /\ cache' = Remember(cache, LET r == Resolve(raw, Follows[kind]) IN
                                (IF r.r = "ok" THEN Scanned(r.p) \cup (IF kind = "readdir" /\ IsDir(r.p) THEN Below(r.p) ELSE {})
                                 ELSE Scanned(SelectSeq(Clean(raw, TRUE), LAMBDA x : TRUE)) \cap DOMAIN tree))
    /\ looks' = Append(looks, [kind |-> kind, raw |-> raw, expect |-> Expect(kind, raw),
                               p |-> Resolve(raw, Follows[kind]).p])
    /\ UNCHANGED <<tree, adds, done>>

Looking ==
    /\ Len(adds) = MaxAdds /\ Len(looks) < MaxLooks /\ ~done
    /\ IF Sampled
       THEN \E base \in {RandomElement(DOMAIN tree)}, w \in {RandomElement(1..4)},
               x \in {RandomElement(Names \cup Absent \cup Dots)}, y \in {RandomElement(Names \cup Absent \cup Dots)},
               k \in {RandomElement(Kinds)}, fresh \in {RandomElement(1..6)} :
              Look(k, LET b == IF fresh = 1 THEN <<>> ELSE base IN
                      IF w <= 2 THEN b ELSE IF w = 3 THEN Append(b, x) ELSE b \o <<x, y>>)
       ELSE \E k \in Kinds, raw \in Asked : Look(k, raw)

Finish == /\ Len(adds) = MaxAdds /\ Len(looks) = MaxLooks /\ ~done
          /\ done' = TRUE /\ UNCHANGED <<tree, adds, cache, looks>>

Next == Adding \/ Looking \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Model-checked facts *)
CacheSound == \A p \in DOMAIN cache : Exists(p) /\ cache[p] = tree[p]
Free == UNION {[1..k -> Names \cup Absent] : k \in 0..(MaxDepth + 1)}
CacheTransparent == \A p \in Free : CachedLstat(cache, p) = CachedLstat(NoCache, p)
\* the link-free lookup is what resolution without links in the way gives
Agrees == \A p \in Free :
    LET r == Resolve(p, FALSE) l == CachedLstat(cache, p) IN
    r.n = 0 => /\ l.r = r.r /\ (r.r = "ok" => r.p = p /\ l.node = tree[p])
NeverEscapes == looks = <<>> => \A p \in Free, last \in BOOLEAN : LET r == Resolve(p, last) IN
    /\ r.r = "ok" => Exists(r.p) /\ (last => tree[r.p].k # "link")
    /\ r.r \in {"ok", "ENOENT", "ENOTDIR", "ELOOP"}
LoopsNeedCycles == \* fewer links than that followed in a row cannot be a cycle of distinct ones
    looks = <<>> => \A p \in Free : Resolve(p, TRUE).r = "ELOOP" => \E x \in DOMAIN tree : tree[x].k = "link"
Spelling == looks = <<>> => \A p \in Free : \A i \in 0..Len(p) : \A d \in {<<"">>, <<".">>} \cup {<<x, "..">> : x \in Names} :
    \A last \in BOOLEAN :
      Resolve(SubSeq(p, 1, i) \o d \o SubSeq(p, i + 1, Len(p)), last) = Resolve(p, last)

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Emit == done => PrintT("TRACE " \o ToJson([adds |-> adds, looks |-> looks,
                        tree |-> SetToSeq0({[p |-> p, k |-> tree[p].k] : p \in DOMAIN tree})]))
View == <<tree, cache, Len(looks), Len(adds), done>>
=============================================================================
