------------------------------ MODULE DiskFill ------------------------------
(* Several processes reading one block through a cache directory.  A process      *)
(* looks for the entry, otherwise locks, looks again, fetches from the source,      *)
(* answers its reader, and writes the entry: a private file gets data, key and       *)
(* checksum and is then published under the entry's name.  A process may die before   *)
(* any step, or a step may fail (plan).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs, MaxFails, CrashSteps, ErrSteps, MaxPlans

None == 0
Full == {"data", "key", "sum"}

VARIABLES pc, plan, got, lock, tmp, entry, reads, fails, alive, hist
vars == <<pc, plan, got, lock, tmp, entry, reads, fails, alive, hist>>
(* tmp: parts of each process's private file; entry: parts of the visible entry, {} if none *)

Init == /\ pc = [p \in Procs |-> "new"] /\ plan = [p \in Procs |-> <<"none", "none">>]
        /\ got = [p \in Procs |-> "nothing"]
        /\ lock = None /\ tmp = [p \in Procs |-> {}] /\ entry = {}
        /\ reads = 0 /\ fails = 0 /\ alive = {} /\ hist = <<>>

Plans == {<<"none", "none">>} \cup ({"crash"} \X CrashSteps) \cup ({"err"} \X ErrSteps)
Planned == Cardinality({p \in Procs : plan[p][1] # "none"})

Start(p, q) == /\ pc[p] = "new" /\ (q[1] # "none" => Planned < MaxPlans)
               /\ (p > 1 => pc[p - 1] # "new")
               /\ pc' = [pc EXCEPT ![p] = "look"] /\ plan' = [plan EXCEPT ![p] = q]
               /\ alive' = alive \cup {p}
               /\ hist' = Append(hist, [e |-> "start", p |-> p, kind |-> q[1], step |-> q[2]])
               /\ UNCHANGED <<got, lock, tmp, entry, reads, fails>>

At(p, s) == pc[p] = s /\ plan[p] # <<"crash", s>> /\ plan[p] # <<"err", s>>
To(p, s) == pc' = [pc EXCEPT ![p] = s]

Look(p) == /\ At(p, "look")
           /\ IF entry = {} THEN To(p, "lock") /\ UNCHANGED <<got, alive>>
              ELSE To(p, "done") /\ got' = [got EXCEPT ![p] = IF entry = Full THEN "right" ELSE "wrong"] /\ alive' = alive \ {p}
           /\ UNCHANGED <<plan, lock, tmp, entry, reads, fails, hist>>
Lock(p) == /\ At(p, "lock") /\ lock = None /\ lock' = p /\ To(p, "recheck")
           /\ UNCHANGED <<plan, got, tmp, entry, reads, fails, alive, hist>>
Recheck(p) == /\ At(p, "recheck")
              /\ IF entry = {} THEN To(p, "fetch") /\ UNCHANGED lock
                 ELSE To(p, "look") /\ lock' = None
              /\ UNCHANGED <<plan, got, tmp, entry, reads, fails, alive, hist>>
Fetch(p, ok) ==
    /\ At(p, "fetch") /\ (~ok => fails < MaxFails)
    /\ hist' = Append(hist, [e |-> "release", p |-> p, ok |-> ok])
    /\ IF ok THEN /\ To(p, "create") /\ reads' = reads + 1 /\ got' = [got EXCEPT ![p] = "right"] /\ UNCHANGED <<lock, fails, alive>>
       ELSE /\ To(p, "done") /\ got' = [got EXCEPT ![p] = "error"] /\ lock' = None /\ fails' = fails + 1 /\ UNCHANGED reads
            /\ alive' = alive \ {p}
    /\ UNCHANGED <<plan, tmp, entry>>

NextOf(s) == CASE s = "create" -> "write" [] s = "write" -> "setkey" [] s = "setkey" -> "setsum"
               [] s = "setsum" -> "sync" [] s = "sync" -> "publish" [] s = "publish" -> "unlock"
Write(p, s) ==
    /\ s \in {"create", "write", "setkey", "setsum", "sync", "publish"} /\ At(p, s) /\ To(p, NextOf(s))
    /\ tmp' = CASE s = "write" -> [tmp EXCEPT ![p] = @ \cup {"data"}]
                [] s = "setkey" -> [tmp EXCEPT ![p] = @ \cup {"key"}]
                [] s = "setsum" -> [tmp EXCEPT ![p] = @ \cup {"sum"}]
                [] OTHER -> tmp
    /\ entry' = IF s = "publish" THEN tmp[p] ELSE entry
    /\ UNCHANGED <<plan, got, lock, reads, fails, alive, hist>>
Unlock(p) == /\ At(p, "unlock") /\ lock' = None /\ To(p, "done") /\ alive' = alive \ {p}
             /\ UNCHANGED <<plan, got, tmp, entry, reads, fails, hist>>

Crash(p) == /\ p \in alive /\ plan[p] = <<"crash", pc[p]>>
            /\ To(p, "dead") /\ lock' = (IF lock = p THEN None ELSE lock) /\ alive' = alive \ {p}
            /\ hist' = (IF pc[p] = "fetch" THEN Append(hist, [e |-> "release", p |-> p, ok |-> TRUE]) ELSE hist)
            /\ UNCHANGED <<plan, got, tmp, entry, reads, fails>>
(* the step fails: before the fetch the reader gets an error, later the entry is given up *)
Err(p) == /\ p \in alive /\ plan[p] = <<"err", pc[p]>>
          /\ To(p, "done") /\ lock' = (IF lock = p THEN None ELSE lock) /\ alive' = alive \ {p}
          /\ got' = [got EXCEPT ![p] = IF @ = "nothing" THEN "error" ELSE @]
          /\ UNCHANGED <<plan, tmp, entry, reads, fails, hist>>

Step(p) == Look(p) \/ Lock(p) \/ Recheck(p) \/ (\E ok \in BOOLEAN : Fetch(p, ok))
           \/ (\E s \in {"create", "write", "setkey", "setsum", "sync", "publish"} : Write(p, s)) \/ Unlock(p) \/ Crash(p) \/ Err(p)
Next == \E p \in Procs : (\E q \in Plans : Start(p, q)) \/ Step(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E p \in Procs : Step(p))

(* the conjunction keeps TLC from drawing the plans once for all behaviours *)
Random == Len(hist) >= 0 /\ \E p \in Procs : (\E q \in {RandomElement(Plans)}, w \in {RandomElement(1..3)} : Start(p, IF w = 1 THEN <<"none", "none">> ELSE q)) \/ Step(p)
Sim == Init /\ [][Random]_vars

---------------------------------------------------------------------------
Complete == entry \in {{}, Full}
RightBytes == \A p \in Procs : got[p] # "wrong"
OneFetcher == Cardinality({p \in alive : pc[p] \in {"fetch", "create", "write", "setkey", "setsum", "sync", "publish", "unlock"}}) <= 1
(* the source answers once, plus once for each process that could not finish its entry *)
FewFetches == reads <= 1 + Planned
NoStuck == alive # {} => ENABLED (\E p \in Procs : Step(p))
ErrorsExplained == Cardinality({p \in Procs : got[p] = "error"}) <= fails + Planned
AllEnd == []<>(alive = {})

Over == alive = {} /\ \A p \in Procs : pc[p] # "new"
Emit == Over => PrintT("TRACE " \o ToJson([ev |-> hist, cached |-> entry = Full]))
View == <<pc, plan, got, lock, tmp, entry, reads, fails, alive>>
=============================================================================
