------------------------------ MODULE Integrity ------------------------------
(* The integrity check of a cache directory: it succeeds exactly when every entry   *)
(* present has the content its label says.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEntries, Damages, Sampled

Harmless == {"none", "gone"}
VARIABLES ents, k, verdict
vars == <<ents, k, verdict>>

Init == ents = <<>> /\ k = 0 /\ verdict = "none"

Grow == /\ verdict = "none" /\ k = 0 /\ Len(ents) < MaxEntries
        /\ IF Sampled
           THEN \E d \in {RandomElement(Damages)}, w \in {RandomElement(1..MaxEntries)} :
                  ents' = Append(ents, IF w = 1 THEN d ELSE "none")
           ELSE \E d \in Damages : ents' = Append(ents, d)
        /\ UNCHANGED <<k, verdict>>
(* entries are looked at one by one, in any order: the first bad one decides *)
Begin == verdict = "none" /\ k = 0 /\ (Sampled => Len(ents) = MaxEntries) /\ k' = 1 /\ UNCHANGED <<ents, verdict>>
Look == /\ verdict = "none" /\ k > 0
        /\ IF k > Len(ents) THEN verdict' = "ok" /\ UNCHANGED k
           ELSE IF ents[k] \in Harmless THEN k' = k + 1 /\ UNCHANGED verdict
           ELSE verdict' = "bad" /\ UNCHANGED k
        /\ UNCHANGED ents
Next == Grow \/ Begin \/ Look
Spec == Init /\ [][Next]_vars

Exact == verdict # "none" => (verdict = "ok" <=> \A i \in DOMAIN ents : ents[i] \in Harmless)
Emit == verdict # "none" => PrintT("TRACE " \o ToJson([entries |-> Len(ents), damage |-> ents, ok |-> verdict = "ok"]))
=============================================================================
