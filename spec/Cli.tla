-------------------------------- MODULE Cli --------------------------------
(* The command line tool: a list of files is burned, and the disc is listed, printed,   *)
(* inspected and copied from, while sources and parts of the disc may be missing.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, ExtNames, BadNames, Dots, Rules, MaxDepth, MaxOps, NumObjs, Sizes, Styles, Bulk, Targets, Sampled,
          Absent, MaxCmd,
          Flaws,     \* subset of {"short", "size", "quote", "uneven", "nocsv", "absent", "nodir"}: what may be wrong with a burn
          Hurts      \* subset of {"gone", "cut"}: what may happen to a disc later

VARIABLES rule, objs, tree, hist, done, flaw, known, gone, cut, copied, cmds
dvars == <<rule, objs, tree, hist, done>>
cvars == <<flaw, known, gone, cut, copied, cmds>>
vars == <<dvars, cvars>>
D == INSTANCE Disc

Init == /\ D!Init /\ flaw = "?" /\ known = TRUE /\ gone = {} /\ cut = <<"none">> /\ copied = {} /\ cmds = <<>>
Add == ~done /\ D!Next /\ UNCHANGED cvars

(* the list is complete; "absent" is a source that is not there *)
Burned == flaw = "none" /\ \A i \in DOMAIN hist : hist[i].op = "file" => hist[i].ok
Burn == /\ done /\ flaw = "?"
        /\ IF Sampled THEN \E f \in {IF RandomElement(1..3) = 1 /\ Flaws # {} THEN RandomElement(Flaws) ELSE "none"}, k \in {RandomElement(BOOLEAN)} : flaw' = f /\ known' = k
           ELSE flaw' \in Flaws \cup {"none"} /\ known' \in BOOLEAN
        /\ UNCHANGED <<dvars, gone, cut, copied, cmds>>

Below(p) == {x \in DOMAIN tree : Len(x) > Len(p) /\ SubSeq(x, 1, Len(p)) = p}
Ancestors(p) == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}
IsDir(p) == p \in DOMAIN tree /\ tree[p].k = "dir"
IsFile(p) == p \in DOMAIN tree /\ tree[p].k = "file"
DirsOf(S) == {x \in S : IsDir(x)}
Hurt == cut # <<"none">>
(* directories a command has to read *)
Needs(c, p) == Ancestors(p) \cup (IF IsDir(p) THEN {p} ELSE {}) \cup (IF c \in {"lsr", "tree"} THEN DirsOf(Below(p)) ELSE {})
Plain(c, p) ==
    IF ~Burned THEN "fail"
    ELSE CASE c \in {"ls", "lsl", "lsr"} -> (IF p \in DOMAIN tree THEN "ok" ELSE "fail")
           [] c = "tree" -> (IF IsDir(p) THEN "ok" ELSE "fail")
           [] c = "inspect" -> "ok"
           [] c = "cp" -> (IF ~(p \in DOMAIN tree) THEN "fail" ELSE IF IsDir(p) THEN "any"
                           ELSE IF tree[p].o \in gone THEN (IF tree[p].o \in copied THEN "okfail" ELSE "fail") ELSE "ok")
Want(c, p) ==
    IF ~Hurt \/ Plain(c, p) \in {"fail", "any"} THEN Plain(c, p)
    ELSE IF c # "inspect" /\ cut \in Needs(c, p) THEN "fail" ELSE "okfail"
Commands == {"ls", "lsl", "lsr", "tree", "cp", "inspect"}
Do(c, p) == /\ cmds' = Append(cmds, [c |-> c, p |-> p, want |-> Want(c, p)])
            /\ copied' = (IF c = "cp" /\ Want(c, p) = "ok" THEN copied \cup {tree[p].o} ELSE copied)
            /\ UNCHANGED <<dvars, flaw, known, gone, cut>>
(* sources that hold bytes can go away *)
Gone(o) == /\ "gone" \in Hurts /\ Burned /\ o \notin gone /\ objs[o].size # 0 /\ objs[o].style # "data"
           /\ gone' = gone \cup {o} /\ cmds' = Append(cmds, [c |-> "gone", o |-> o, want |-> "ok"]) /\ UNCHANGED <<dvars, flaw, known, cut, copied>>
Cut(p) == /\ "cut" \in Hurts /\ Burned /\ ~Hurt /\ IsDir(p)
          /\ cut' = p /\ cmds' = Append(cmds, [c |-> "cut", p |-> p, want |-> "ok"]) /\ UNCHANGED <<dvars, flaw, known, gone, copied>>

Asked == DOMAIN tree \cup {Append(p, a) : p \in DOMAIN tree, a \in Absent}
RandomPath == IF Hurt /\ RandomElement(1..2) = 1 THEN RandomElement(Ancestors(cut) \cup {cut} \cup Below(cut)) ELSE IF RandomElement(1..6) = 1 THEN RandomElement(Asked) ELSE RandomElement(DOMAIN tree)
Command ==
    /\ done /\ flaw # "?" /\ Len(cmds) < MaxCmd
    /\ IF Sampled
       THEN \E w \in {RandomElement(1..20)} :
              IF w = 1 /\ \E o \in DOMAIN objs : ENABLED Gone(o) THEN \E o \in {RandomElement({x \in DOMAIN objs : ENABLED Gone(x)})} : Gone(o)
              ELSE IF w \in 2..4 /\ Burned /\ ~Hurt /\ "cut" \in Hurts THEN \E p \in {RandomElement(DirsOf(DOMAIN tree))} : Cut(p)
              ELSE \E c \in {RandomElement(Commands)}, p \in {RandomPath} : Do(c, p)
       ELSE (\E c \in Commands, p \in Asked : Do(c, p)) \/ (\E o \in DOMAIN objs : Gone(o)) \/ (\E p \in DOMAIN tree : Cut(p))
Next == Add \/ Burn \/ Command
Spec == Init /\ [][Next]_vars

(* a burn that failed leaves nothing to look at; nothing succeeds on what is missing *)
NoDisc == ~Burned => \A i \in DOMAIN cmds : cmds[i].want = "fail"
OnlyBurned == \A i \in DOMAIN cmds : (cmds[i].want = "ok" /\ cmds[i].c \in {"ls", "lsl", "lsr", "tree", "cp"}) => cmds[i].p \in DOMAIN tree
Emit == Len(cmds) = MaxCmd =>
    PrintT("TRACE " \o ToJson([rule |-> rule, objs |-> objs, ops |-> hist, tree |-> D!TreeList, flaw |-> flaw, known |-> known, burned |-> Burned, cmds |-> cmds]))
=============================================================================
