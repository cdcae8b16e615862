------------------------------- MODULE Upload -------------------------------
(* Uploading an object: one put for small objects, else a multi-part upload whose  *)
(* parts are sent by several workers and finish in any order.  One request may fail *)
(* (for good or once), the data may end in an error or the upload be cancelled.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxParts, Workers

VARIABLES parts, multi,      \* how much there is to send, and which way
          fate,              \* [req, part, how]: the request that fails; how: fails, transient, cancel
          ends,              \* commit, or the data ends in an error after `ends' parts
          pc, next, flight, ord, err, upload, stored, result
vars == <<parts, multi, fate, ends, pc, next, flight, ord, err, upload, stored, result>>

None == [req |-> "none", part |-> 0, how |-> "none"]
Absent == <<0>>
Fates(n, m) ==
    {None} \cup
    (IF m THEN {[req |-> r, part |-> 0, how |-> h] : r \in {"create", "complete"}, h \in {"fails", "transient"}}
               \cup {[req |-> "part", part |-> p, how |-> h] : p \in 1..n, h \in {"fails", "transient", "cancel"}}
               \cup {[req |-> "complete", part |-> 0, how |-> "cancel"]}
     ELSE {[req |-> "put", part |-> 0, how |-> h] : h \in {"fails", "transient", "cancel"}})

Init == /\ parts \in 0..MaxParts /\ multi \in BOOLEAN
        /\ (multi => parts >= 1) /\ (~multi => parts <= 1)
        /\ fate \in Fates(parts, multi)
        /\ ends \in {-1} \cup (0..parts)
        /\ (ends >= 0 => fate = None)
        /\ pc = "start" /\ next = 1 /\ flight = {} /\ ord = <<>> /\ err = FALSE /\ upload = "none" /\ stored = Absent /\ result = "none"
Static == UNCHANGED <<parts, multi, fate, ends>>
Fails(req, p) == fate.req = req /\ fate.part = p /\ fate.how # "transient"

Single == /\ pc = "start" /\ ~multi
          /\ pc' = "end"
          /\ IF ends >= 0 \/ Fails("put", 0) THEN result' = "error" /\ UNCHANGED stored
             ELSE result' = "ok" /\ stored' = [i \in 1..parts |-> i]
          /\ UNCHANGED <<next, flight, ord, err, upload>> /\ Static
Create == /\ pc = "start" /\ multi
          /\ IF ends = 0 \/ Fails("create", 0) THEN result' = "error" /\ pc' = "end" /\ UNCHANGED upload
             ELSE upload' = "open" /\ pc' = "parts" /\ UNCHANGED result
          /\ UNCHANGED <<next, flight, ord, err, stored>> /\ Static
Last == IF ends >= 0 THEN ends ELSE parts
Send == /\ pc = "parts" /\ ~err /\ next <= Last /\ Cardinality(flight) < Workers
        /\ flight' = flight \cup {next} /\ next' = next + 1
        /\ UNCHANGED <<pc, ord, err, upload, stored, result>> /\ Static
Finish(p) == /\ pc = "parts" /\ p \in flight
             /\ flight' = flight \ {p} /\ ord' = Append(ord, p)
             /\ err' = (err \/ Fails("part", p))
             /\ UNCHANGED <<pc, next, upload, stored, result>> /\ Static
Broken == /\ pc = "parts" /\ ends >= 0 /\ next > ends /\ ~err /\ err' = TRUE      \* the data ends in an error
          /\ UNCHANGED <<pc, next, flight, ord, upload, stored, result>> /\ Static
Complete == /\ pc = "parts" /\ flight = {} /\ (err \/ (next > Last /\ ends < 0))
            /\ pc' = "end"
            /\ IF err \/ Fails("complete", 0) THEN upload' = "aborted" /\ result' = "error" /\ UNCHANGED stored
               ELSE upload' = "completed" /\ result' = "ok" /\ stored' = [i \in 1..parts |-> i]
            /\ UNCHANGED <<next, flight, ord, err>> /\ Static
Next == Single \/ Create \/ Send \/ (\E p \in 1..MaxParts : Finish(p)) \/ Broken \/ Complete
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == result = "ok" => stored = [i \in 1..parts |-> i] /\ (multi => Len(ord) = parts)
Clean == result = "error" => stored = Absent /\ upload # "open"
Ends == <>(pc = "end")
Emit == pc = "end" => PrintT("TRACE " \o ToJson([parts |-> parts, multi |-> multi, fate |-> fate, ends |-> ends, ord |-> ord, result |-> result]))
=============================================================================
