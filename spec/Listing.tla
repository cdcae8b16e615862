------------------------------ MODULE Listing ------------------------------
(* Listing a directory of a bucket page by page.  In key order there are objects     *)
(* with one or more versions, deleted objects with old versions, and sub-directories. *)
(* A page holds some of the entries and says where to go on.  The page    *)
(* on which a certain key begins may fail.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumKeys, MaxPage, Sampled, Faults

Kinds == {"none", "one", "old", "older", "gone", "dir"}
VARIABLES items, size, fault, at, page, got, result
vars == <<items, size, fault, at, page, got, result>>

EntriesOf(i) == CASE items[i] = "none" -> <<>>
                  [] items[i] = "one" -> <<[i |-> i, cur |-> TRUE]>>
                  [] items[i] = "old" -> <<[i |-> i, cur |-> TRUE], [i |-> i, cur |-> FALSE]>>
                  [] items[i] = "older" -> <<[i |-> i, cur |-> TRUE], [i |-> i, cur |-> FALSE], [i |-> i, cur |-> FALSE]>>
                  [] items[i] = "gone" -> <<[i |-> i, cur |-> FALSE], [i |-> i, cur |-> FALSE]>>
                  [] items[i] = "dir" -> <<[i |-> i, cur |-> TRUE]>>
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN <<>> ELSE Upto(n - 1) \o EntriesOf(n)
Entries == Upto(Len(items))
NoFault == [item |-> 0, kind |-> "none"]

Init == /\ items = <<>> /\ size = 1 /\ fault = NoFault /\ at = 0 /\ page = 0 /\ got = <<>> /\ result = "setup"
Setup == /\ result = "setup" /\ result' = "going"
         /\ IF Sampled
            THEN \E n \in {RandomElement(1..NumKeys)}, s \in {RandomElement(1..MaxPage)}, w \in {RandomElement(1..3)} :
                 \E k \in {[j \in 1..n |-> RandomElement(Kinds)]}, p \in {RandomElement(1..n)}, f \in {RandomElement(Faults)} :
                   items' = k /\ size' = s /\ fault' = IF w = 1 THEN [item |-> p, kind |-> f] ELSE NoFault
            ELSE /\ items' \in [1..NumKeys -> Kinds] /\ size' \in 1..MaxPage
                 /\ fault' \in {NoFault} \cup {[item |-> p, kind |-> f] : p \in 1..NumKeys, f \in Faults}
         /\ UNCHANGED <<at, page, got>>

Min(a, b) == IF a < b THEN a ELSE b
Fetch ==
    /\ result = "going" /\ page' = page + 1
    /\ LET to == Min(at + size, Len(Entries))
           seen == SelectSeq(SubSeq(Entries, at + 1, to), LAMBDA e : e.cur)
           more == to < Len(Entries) IN
       IF (\E j \in (at + 1)..to : Entries[j].i = fault.item /\ (j = 1 \/ Entries[j - 1].i # fault.item)) /\ ~(fault.kind = "nomarker" /\ ~more)
       THEN /\ result' = IF fault.kind = "missing" /\ page = 0 THEN "notfound" ELSE "error"
            /\ UNCHANGED <<at, got>>
       ELSE /\ at' = to /\ got' = got \o seen
            /\ result' = IF more THEN "going" ELSE "done"
    /\ UNCHANGED <<items, size, fault>>
Next == Setup \/ Fetch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Current == {i \in DOMAIN items : items[i] \in {"one", "old", "older", "dir"}}
Once == \A j, k \in DOMAIN got : got[j].i = got[k].i => j = k
Complete == result = "done" => {got[j].i : j \in DOMAIN got} = Current
OnlyCurrent == \A j \in DOMAIN got : got[j].i \in Current
Ends == <>(result \in {"done", "error", "notfound"})
Emit == result \in {"done", "error", "notfound"} =>
          PrintT("TRACE " \o ToJson([items |-> items, size |-> size, fault |-> fault, result |-> result, pages |-> page, want |-> Current]))
=============================================================================
