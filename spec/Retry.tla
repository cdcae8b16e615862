------------------------------- MODULE Retry -------------------------------
(* Repeating a request: attempts, pauses, a time budget and cancellation.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxScript, Outcomes, Again,     \* outcomes of attempts, and those that are retried
          Cancels                         \* moments of cancellation: <<"call"|"pause", attempt>>

VARIABLES script,      \* outcome of attempt k; the last repeats for ever
          budget,      \* attempts that fit in the time budget (0: no limit reached)
          cancel, resend, pc, n, last, open
vars == <<script, budget, cancel, resend, pc, n, last, open>>

Scripts == UNION {[1..k -> Outcomes] : k \in 1..MaxScript}
CancelPoints == {"call", "pause"} \X (1..3)
Never == <<"never", 0>>
Init == /\ script \in Scripts
        /\ budget \in {0} \cup (1..MaxScript)
        /\ cancel \in {Never} \cup Cancels
        /\ resend \in BOOLEAN                  \* the request can be sent again
        /\ (script[Len(script)] \in Again => budget > 0 \/ cancel # Never \/ ~resend)     \* it has to end
        /\ (cancel # Never => budget = 0)
        /\ pc = "call" /\ n = 1 /\ last = "none" /\ open = {}
At(k) == IF k <= Len(script) THEN script[k] ELSE script[Len(script)]
Static == UNCHANGED <<script, budget, cancel, resend>>

(* an answer leaves its body open until it is abandoned *)
Answer == /\ pc = "call" /\ cancel # <<"call", n>>
          /\ last' = At(n) /\ open' = IF At(n) = "net" THEN {} ELSE {n}
          /\ pc' = IF At(n) \in Again /\ resend THEN (IF budget = n THEN "end" ELSE "pause") ELSE "end"
          /\ UNCHANGED n /\ Static
Broken == pc = "call" /\ cancel = <<"call", n>> /\ last' = "cancelled" /\ open' = {} /\ pc' = "end" /\ UNCHANGED n /\ Static
Pause == /\ pc = "pause" /\ cancel # <<"pause", n>> /\ n' = n + 1 /\ pc' = "call" /\ open' = {} /\ UNCHANGED last /\ Static
Stop == pc = "pause" /\ cancel = <<"pause", n>> /\ pc' = "end" /\ last' = "cancelled" /\ UNCHANGED <<n, open>> /\ Static
Next == Answer \/ Broken \/ Pause \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneOpen == Cardinality(open) <= 1
NotRepeated == [][n' > n => At(n) \in Again]_vars
Ends == pc # "end" ~> pc = "end"
Bound == n <= MaxScript + 6
Right == pc = "end" /\ cancel = Never /\ budget = 0 /\ resend => last \notin Again
Emit == pc = "end" => PrintT("TRACE " \o ToJson([script |-> script, budget |-> budget, cancel |-> cancel[1], at |-> cancel[2], resend |-> resend,
                                                   attempts |-> n, last |-> last]))
=============================================================================
