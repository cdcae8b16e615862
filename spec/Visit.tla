------------------------------- MODULE Visit -------------------------------
(* A parallel visit of a tree: directories wait to be listed, up to W are being      *)
(* listed at a time, a finished listing is reported and adds its subdirectories.     *)
(* A listing or the callback may fail, or the visit be cancelled.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDirs, MaxFiles, W, Faults, Sampled

VARIABLES tree,       \* parent of each directory 2.. (1 is the root)
          nfiles,     \* files in each directory
          fault,      \* <<kind, directory>>
          todo, busy, seen, st, hist
vars == <<tree, nfiles, fault, todo, busy, seen, st, hist>>

Dirs == 1..(Len(tree) + 1)
Kids(d) == {k \in 2..(Len(tree) + 1) : tree[k - 1] = d}

Init == /\ tree = <<>> /\ nfiles = <<0>> /\ fault = <<"none", 0>>
        /\ todo = {1} /\ busy = {} /\ seen = {} /\ st = "build" /\ hist = <<>>

Grow == /\ st = "build" /\ Len(tree) + 1 < MaxDirs
        /\ IF Sampled
           THEN \E d \in {RandomElement(1..(Len(tree) + 1))}, n \in {RandomElement(0..MaxFiles)} :
                  tree' = Append(tree, d) /\ nfiles' = Append(nfiles, n)
           ELSE \E d \in 1..(Len(tree) + 1) : tree' = Append(tree, d) /\ nfiles' = Append(nfiles, 1)
        /\ UNCHANGED <<fault, todo, busy, seen, st, hist>>
Begin == /\ st = "build" /\ (Sampled => Len(tree) + 1 = MaxDirs)
         /\ IF Sampled
            THEN \E k \in {RandomElement(Faults \cup {"none"})}, d \in {RandomElement(Dirs)} : fault' = <<k, d>>
            ELSE \E k \in Faults \cup {"none"}, d \in Dirs : (k = "none" => d = 1) /\ fault' = <<k, d>>
         /\ st' = "run" /\ UNCHANGED <<tree, nfiles, todo, busy, seen, hist>>

Start(d) == /\ st = "run" /\ d \in todo /\ Cardinality(busy) < W
            /\ todo' = todo \ {d} /\ busy' = busy \cup {d}
            /\ UNCHANGED <<tree, nfiles, fault, seen, st, hist>>
EndOk(d) == /\ st = "run" /\ d \in busy /\ (fault[2] # d \/ fault[1] \in {"none", "skip"})
            /\ busy' = busy \ {d} /\ hist' = Append(hist, d)
            /\ IF fault = <<"skip", d>> THEN UNCHANGED <<seen, todo>>
               ELSE seen' = seen \cup {d} /\ todo' = todo \cup Kids(d)
            /\ UNCHANGED <<tree, nfiles, fault, st>>
EndBad(d) == /\ st = "run" /\ d \in busy /\ fault[2] = d /\ fault[1] \notin {"none", "skip"}
             /\ st' = "error" /\ hist' = Append(hist, d) /\ busy' = busy \ {d}
             /\ UNCHANGED <<tree, nfiles, fault, todo, seen>>
Done == /\ st = "run" /\ todo = {} /\ busy = {} /\ st' = "ok"
        /\ UNCHANGED <<tree, nfiles, fault, todo, busy, seen, hist>>
Next == Grow \/ Begin \/ (\E d \in Dirs : Start(d) \/ EndOk(d) \/ EndBad(d)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Anc(_)
Anc(d) == IF d = 1 THEN {1} ELSE {d} \cup Anc(tree[d - 1])
Skipped(d) == fault[1] = "skip" /\ fault[2] \in Anc(d)
AllSeen == st = "ok" => seen = {d \in Dirs : ~Skipped(d)}
NoLostError == st = "ok" => fault[1] \in {"none", "skip"}
Once == \A i, j \in DOMAIN hist : i # j => hist[i] # hist[j]
Bounded == Cardinality(busy) <= W
Ends == <>(st \in {"ok", "error"})
Emit == st \in {"ok", "error"} => PrintT("TRACE " \o ToJson([tree |-> tree, nfiles |-> nfiles, kind |-> fault[1], dir |-> fault[2], order |-> hist, ok |-> st = "ok",
                 expect |-> {d \in Dirs : ~Skipped(d)}]))
View == <<tree, nfiles, fault, todo, busy, seen, st>>
=============================================================================
