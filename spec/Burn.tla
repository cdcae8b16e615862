-------------------------------- MODULE Burn --------------------------------
(* The steps of publishing a disc: the header object first, then the disc        *)
(* object.  A fault may hit any one step; the disc exists only if no step failed. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT MaxWrites

VARIABLES fault, step, header, disc, result, done

vars == <<fault, step, header, disc, result, done>>

Steps == <<"create header", "write header", "commit header", "create disc", "write disc", "commit disc">>

(* sticky: everything after the failing step fails as well; otherwise only that  *)
(* step fails and the store would accept all later ones.                           *)
Faults == {[at |-> "none", nth |-> 0, sticky |-> TRUE, big |-> b] : b \in BOOLEAN}
          \cup {[at |-> s, nth |-> 1, sticky |-> TRUE, big |-> b] : s \in {Steps[i] : i \in 1..6}, b \in BOOLEAN}
          \cup {[at |-> s, nth |-> n, sticky |-> t, big |-> b] :
                    s \in {"write header", "write disc"}, n \in 1..MaxWrites, t \in BOOLEAN, b \in BOOLEAN}

Init == fault \in Faults /\ step = 1 /\ header = FALSE /\ disc = FALSE /\ result = "running" /\ done = FALSE

Do == /\ result = "running" /\ step <= 6
      /\ IF fault.at = Steps[step]
         THEN result' = "error" /\ UNCHANGED <<header, disc, step>>
         ELSE /\ header' = (header \/ Steps[step] = "commit header")
              /\ disc' = (disc \/ Steps[step] = "commit disc")
              /\ step' = step + 1
              /\ result' = IF step = 6 THEN "ok" ELSE "running"
      /\ UNCHANGED <<fault, done>>

Finish == result # "running" /\ ~done /\ done' = TRUE /\ UNCHANGED <<fault, step, header, disc, result>>

Next == Do \/ Finish
Spec == Init /\ [][Next]_vars

NoPartialDisc == disc => header /\ fault.at = "none"
ErrorsReported == done /\ fault.at # "none" => result = "error"
SuccessPublishes == result = "ok" => disc

Emit == done => PrintT("TRACE " \o ToJson([fault |-> fault, result |-> result, disc |-> disc]))
=============================================================================
