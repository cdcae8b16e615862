-------------------------------- MODULE Disc --------------------------------
(* A disc being burned: a tree of directories, files (each on a source object)  *)
(* and symbolic links.  Additions are accepted or rejected; the final tree is    *)
(* what every reader of the disc must see.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Paths

CONSTANTS
    Names,        \* component tokens usable under both name rules
    ExtNames,     \* tokens allowed by the extended rule only
    BadNames,     \* tokens allowed by no rule
    Dots,         \* subset of {"", ".", ".."}: odd components that occur
    Rules,        \* subset of {"portable", "extended"}
    MaxDepth, MaxOps,
    NumObjs,      \* source objects 1..NumObjs
    Sizes,        \* size classes of objects (indices in the driver's table)
    Styles,       \* URL styles of objects
    Bulk,         \* set of bulk sizes: many files added to one directory
    Targets,      \* link targets (sequences are built by the driver from tokens)
    Sampled       \* BOOLEAN: draw arguments at random (simulation) instead of all

VARIABLES rule, objs, tree, hist, done

vars == <<rule, objs, tree, hist, done>>

Components == Names \cup ExtNames \cup BadNames \cup Dots

RawPaths == UNION {[1..k -> Components] : k \in 1..MaxDepth}

Allowed(c) == c \in Names \/ (c \in ExtNames /\ rule = "extended")

Exists(p) == p \in DOMAIN tree

Acceptable(p) ==
    /\ p # <<>>
    /\ \A i \in DOMAIN p : Allowed(p[i])
    /\ ~Exists(p)
    /\ \A a \in StrictPrefixes(p) : Exists(a) => tree[a].k = "dir"

Dir == [k |-> "dir"]

With(p, node) ==
    LET missing == {a \in StrictPrefixes(p) : ~Exists(a)} IN
    [x \in DOMAIN tree \cup missing \cup {p} |->
        IF x = p THEN node ELSE IF x \in missing THEN Dir ELSE tree[x]]

Init ==
    /\ rule \in Rules
    /\ IF Sampled THEN objs = <<>> ELSE objs \in [1..NumObjs -> [size : Sizes, style : Styles]]
    /\ tree = (<<>> :> Dir)
    /\ hist = <<>>
    /\ done = FALSE

Add(raw, abs, node) ==
    LET p == Clean(raw, Rooted(raw, abs)) ok == Acceptable(p) IN
    /\ tree' = IF ok THEN With(p, node) ELSE tree
    /\ hist' = Append(hist, [op |-> node.k, path |-> raw, abs |-> abs, node |-> node, ok |-> ok])
    /\ UNCHANGED <<rule, objs, done>>

(* n files b1..bn in directory p, all on object o *)
BulkNames == [i \in 1..200 |-> "b" \o ToString(i)]

AddBulk(p, n, o) ==
    /\ Exists(p) /\ tree[p].k = "dir"
    /\ ~Exists(Append(p, BulkNames[1]))
    /\ tree' = [x \in DOMAIN tree \cup {Append(p, BulkNames[i]) : i \in 1..n} |->
                    IF Exists(x) THEN tree[x] ELSE [k |-> "file", o |-> o]]
    /\ hist' = Append(hist, [op |-> "bulk", path |-> p, n |-> n, o |-> o])
    /\ UNCHANGED <<rule, objs, done>>

AddFile == \E raw \in RawPaths, abs \in BOOLEAN, o \in 1..NumObjs : Add(raw, abs, [k |-> "file", o |-> o])
AddLink == \E raw \in RawPaths, abs \in BOOLEAN, t \in Targets : Add(raw, abs, [k |-> "link", t |-> t])
AddMany == \E p \in {x \in DOMAIN tree : tree[x].k = "dir"}, n \in Bulk, o \in 1..NumObjs : AddBulk(p, n, o)

(* Simulation: one random choice of arguments per step, odd components rare. *)
Odd == ExtNames \cup BadNames \cup Dots
Comp(i) == IF i = 1 /\ Odd # {} THEN RandomElement(Odd) ELSE RandomElement(Names)
Draw12 == RandomElement(1..12)

SampledAdd ==
    \E c1 \in {Comp(Draw12)}, c2 \in {Comp(Draw12)}, c3 \in {Comp(Draw12)}, c4 \in {Comp(Draw12)}, c5 \in {Comp(Draw12)} :
    \E k \in {RandomElement(1..MaxDepth)}, abs \in {RandomElement(BOOLEAN)}, w \in {Draw12} :
      LET raw == SubSeq(<<c1, c2, c3, c4, c5>>, 1, k) IN
      IF w <= 2 /\ Targets # {}
      THEN \E t \in {RandomElement(Targets)} : Add(raw, abs, [k |-> "link", t |-> t])
      ELSE IF w = 3 /\ Bulk # {}
      THEN \E p \in {RandomElement({x \in DOMAIN tree : tree[x].k = "dir"})}, n \in {RandomElement(Bulk)}, o \in {RandomElement(1..NumObjs)} :
             IF Exists(Append(p, BulkNames[1])) THEN Add(raw, abs, [k |-> "file", o |-> o]) ELSE AddBulk(p, n, o)
      ELSE \E o \in {RandomElement(1..NumObjs)} : Add(raw, abs, [k |-> "file", o |-> o])

Setup == /\ objs = <<>> /\ NumObjs > 0
         /\ \E a \in {RandomElement(Sizes)}, b \in {RandomElement(Sizes)}, e \in {RandomElement(Sizes)}, f \in {RandomElement(Sizes)},
              g \in {RandomElement(Styles)}, h \in {RandomElement(Styles)}, i \in {RandomElement(Styles)}, j \in {RandomElement(Styles)} :
              objs' = SubSeq(<<[size |-> a, style |-> g], [size |-> b, style |-> h], [size |-> e, style |-> i], [size |-> f, style |-> j]>>, 1, NumObjs)
         /\ UNCHANGED <<rule, tree, hist, done>>

Step == /\ Len(hist) < MaxOps /\ Len(objs) = NumObjs
        /\ IF Sampled THEN SampledAdd ELSE AddFile \/ AddLink \/ AddMany

Finish == /\ Len(hist) = MaxOps /\ ~done
          /\ done' = TRUE
          /\ UNCHANGED <<rule, objs, tree, hist>>

Next == Setup \/ Step \/ Finish

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Model-checked facts *)
TreeClosed == \A p \in DOMAIN tree : p = <<>> \/ (Exists(Parent(p)) /\ tree[Parent(p)].k = "dir")
NamesOK == \A p \in DOMAIN tree : \A i \in DOMAIN p : Allowed(p[i]) \/ \E j \in DOMAIN BulkNames : p[i] = BulkNames[j]
OnlyAccepted == \* every leaf was put there by exactly one accepted addition
    \A p \in DOMAIN tree : tree[p].k # "dir" =>
        Cardinality({i \in DOMAIN hist :
            \/ hist[i].op \in {"file", "link"} /\ hist[i].ok /\ Clean(hist[i].path, Rooted(hist[i].path, hist[i].abs)) = p
            \/ hist[i].op = "bulk" /\ Parent(p) = hist[i].path /\ \E j \in 1..hist[i].n : p[Len(p)] = BulkNames[j]}) = 1
NoEmptyDirs == \* directories exist only because something is in them
    \A p \in DOMAIN tree : tree[p].k = "dir" /\ p # <<>> => \E x \in DOMAIN tree : Len(x) > Len(p) /\ IsPrefix0(p, x)

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

TreeList == SetToSeq0({[p |-> p, n |-> tree[p]] : p \in DOMAIN tree})

Emit == done =>
    PrintT("TRACE " \o ToJson([rule |-> rule, objs |-> objs, ops |-> hist, tree |-> TreeList]))
=============================================================================
