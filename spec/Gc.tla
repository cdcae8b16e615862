--------------------------------- MODULE Gc ---------------------------------
(* Garbage collection: ask whether space is needed; if so remove one cached block  *)
(* and ask again.  Blocks may vanish underneath; the goal may change over time.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEntries, MaxGoals, MaxBurst

VARIABLES n0, goals, burst, left, asked, st, vanished, removed, stale
vars == <<n0, goals, burst, left, asked, st, vanished, removed, stale>>
(* burst = <<question, number>>: blocks vanishing before that question               *)
(* stale: vanished blocks the collector may still try to remove                       *)

Init == /\ n0 \in 0..MaxEntries
        /\ \E k \in 1..MaxGoals : goals \in [1..k -> 0..(MaxEntries + 1)]
        /\ burst \in (0..2) \X (0..MaxBurst)
        /\ (burst[2] > 0 => Len(goals) = 1)
        /\ left = n0 /\ asked = 0 /\ st = "ask" /\ vanished = 0 /\ removed = 0 /\ stale = 0

Goal(k) == goals[IF k < Len(goals) THEN k + 1 ELSE Len(goals)]
Min(a, b) == IF a < b THEN a ELSE b

Ask == /\ st = "ask"
       /\ LET v == IF asked = burst[1] THEN Min(burst[2], left) ELSE 0 IN
          /\ left' = left - v /\ vanished' = vanished + v
          /\ stale' \in stale..(stale + v)
          /\ st' = IF left - v > Goal(asked) THEN "remove" ELSE "end"
       /\ asked' = asked + 1
       /\ UNCHANGED <<n0, goals, burst, removed>>
Remove == /\ st = "remove"
          /\ \/ left > 0 /\ left' = left - 1 /\ removed' = removed + 1 /\ st' = "ask" /\ UNCHANGED stale
             \/ stale > 0 /\ stale' = stale - 1 /\ st' = "ask" /\ UNCHANGED <<left, removed>>
             \/ left = 0 /\ stale = 0 /\ st' = "end" /\ UNCHANGED <<left, removed, stale>>
          /\ UNCHANGED <<n0, goals, burst, asked, vanished>>
Next == Ask \/ Remove
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Accounted == left + removed + vanished = n0
(* stops only when the goal is met or nothing is left; removes only while needed *)
GoalMet == st = "end" => left = 0 \/ left <= Goal(asked - 1)
JustEnough == st = "end" /\ Len(goals) = 1 /\ removed > 0 /\ vanished = 0 => left = goals[1]
Ends == <>(st = "end")
Emit == st = "end" => PrintT("TRACE " \o ToJson([entries |-> n0, goals |-> goals, burst |-> burst, left |-> left]))
=============================================================================
