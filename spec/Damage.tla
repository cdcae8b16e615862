------------------------------- MODULE Damage -------------------------------
(* What may become of a disc that was damaged between burning and loading.       *)
(*                                                                                 *)
(* A disc is two objects: the disc file (a compressed, check-summed message) and   *)
(* the metadata object it refers to.  Damage is applied to one of them; then the   *)
(* disc is loaded and everything on it is looked at.  The outcome is one of         *)
(*    same      everything as burned                                                *)
(*    refused   the load fails                                                      *)
(*    error     the load succeeds, some look fails with an error, no look is wrong   *)
(*    other     some look gives something else, without an error                     *)
(*    crash, hang                                                                    *)
(* Allowed says which outcomes each damage may have: nothing may crash or hang,     *)
(* what check sums or lengths reveal must not go unnoticed.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lanes, Masks, Words, Foreign, FaultSteps

VARIABLES damage, stage, done
vars == <<damage, stage, done>>

Lane == 0..(Lanes - 1)

Damages ==
    [kind : {"none"}]
    \cup [kind : {"cut", "plaincut", "metacut"}, lane : Lane]           \* every length = lane modulo Lanes
    \cup [kind : {"flip", "plainflip", "metaflip"}, lane : Lane, mask : Masks]
    \cup [kind : {"plainword", "metaword"}, lane : Lane, word : Words]
    \cup [kind : {"extend", "plainextend"}, lane : {0}]
    \cup [kind : {"foreign"}, what : Foreign]
    \cup [kind : {"metamissing", "noversion", "celoop"}]
    \cup [kind : {"fault"}, once : BOOLEAN, how : {"error", "short"}, step : FaultSteps]

Outcomes == {"same", "refused", "error", "other", "crash", "hang"}

Allowed(d) ==
    CASE d.kind = "none" -> {"same"}
      [] d.kind \in {"cut", "plaincut", "foreign", "noversion"} -> {"refused"}
      [] d.kind = "flip" -> {"same", "refused"}
      [] d.kind = "metacut" -> {"same", "refused", "error"}
      [] d.kind = "metamissing" -> {"refused", "error"}
      [] d.kind = "extend" -> {"same", "refused"}
      [] d.kind = "plainextend" -> {"same", "refused"}
      [] d.kind = "fault" -> {"same", "refused", "error"}
      [] OTHER -> {"same", "refused", "error", "other"}

(* The stages of a load.  Each stage checks what it can; the damage that a stage *)
(* is bound to notice ends there.                                                  *)
Stages == <<"open", "unzip", "message", "version", "extents", "look">>

Noticed(s, d) ==
    CASE s = "unzip" -> d.kind \in {"cut", "flip", "foreign", "extend"}
      [] s = "message" -> d.kind \in {"plaincut", "plainflip", "plainword", "foreign", "plainextend"}
      [] s = "version" -> d.kind \in {"noversion", "plainflip", "plainword"}
      [] s = "extents" -> d.kind \in {"plainflip", "plainword"}
      [] s = "look" -> d.kind \in {"metacut", "metaflip", "metaword", "celoop", "metamissing", "plainflip", "plainword", "fault"}
      [] OTHER -> FALSE
Must(s, d) == \/ s = "message" /\ d.kind = "plaincut"
              \/ s = "unzip" /\ d.kind = "cut"
              \/ s = "message" /\ d.kind = "foreign"
              \/ s = "version" /\ d.kind = "noversion"
              \/ s = "look" /\ d.kind = "metamissing"

Init == damage \in Damages /\ stage = 1 /\ done = "no"

Advance ==
    /\ done = "no"
    /\ LET s == Stages[stage] IN
       \/ /\ Noticed(s, damage) \/ Must(s, damage)
          /\ done' = IF s = "look" THEN "error" ELSE "refused"
          /\ UNCHANGED <<damage, stage>>
       \/ /\ ~Must(s, damage) /\ stage < Len(Stages)
          /\ stage' = stage + 1 /\ UNCHANGED <<damage, done>>
       \/ /\ ~Must(s, damage) /\ stage = Len(Stages)
          /\ done' \in IF damage.kind \in {"plainflip", "plainword", "metaflip", "metaword", "celoop"} THEN {"same", "other"} ELSE {"same"}
          /\ UNCHANGED <<damage, stage>>

Next == Advance
Spec == Init /\ [][Next]_vars

OnlyAllowed == done # "no" => done \in Allowed(damage)
NeverBad == Allowed(damage) \cap {"crash", "hang"} = {}

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Emit == stage = 1 /\ done = "no" => PrintT("TRACE " \o ToJson([damage |-> damage, allowed |-> SetSeq(Allowed(damage))]))
=============================================================================
