------------------------------ MODULE Publish ------------------------------
(* One writer of an object in steps, with a crash or a failure before any of them.  *)
(* A reader sees the old content, or after publication the whole new one.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumWrites, Kinds, Steps

VARIABLES plan, old, pc, tmp, seen, ended
vars == <<plan, old, pc, tmp, seen, ended>>

Init == /\ plan \in {<<"none", "none">>} \cup (Kinds \X Steps)
        /\ old \in BOOLEAN
        /\ pc = "create" /\ tmp = 0 /\ seen = (IF old THEN "old" ELSE "nothing") /\ ended = "no"

Struck(s) == plan = <<"crash", s>> \/ plan = <<"err", s>>
Go(s, next) == pc = s /\ ~Struck(s) /\ pc' = next /\ UNCHANGED <<plan, old, ended>>
Create == Go("create", "write") /\ UNCHANGED <<tmp, seen>>
Write == /\ pc = "write" /\ ~Struck("write") /\ tmp' = tmp + 1
         /\ pc' = (IF tmp + 1 = NumWrites THEN "sync" ELSE "write") /\ UNCHANGED <<plan, old, seen, ended>>
Sync == Go("sync", "close") /\ UNCHANGED <<tmp, seen>>
Close == Go("close", "publish") /\ UNCHANGED <<tmp, seen>>
Rename == Go("publish", "tidy") /\ seen' = (IF tmp = NumWrites THEN "new" ELSE "partial") /\ UNCHANGED tmp
Tidy == Go("tidy", "end") /\ UNCHANGED <<tmp, seen>>
Die == /\ pc # "end" /\ plan = <<"crash", pc>> /\ pc' = "end" /\ ended' = "dead" /\ UNCHANGED <<plan, old, tmp, seen>>
Fail == /\ pc # "end" /\ plan = <<"err", pc>> /\ pc' = "end" /\ ended' = "error" /\ UNCHANGED <<plan, old, tmp, seen>>
Next == Create \/ Write \/ Sync \/ Close \/ Rename \/ Tidy \/ Die \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOrNothing == seen \in {"new", IF old THEN "old" ELSE "nothing"}
ErrorMeansOld == ended = "error" /\ plan[2] # "tidy" => seen # "new"
SuccessMeansNew == pc = "end" /\ ended = "no" => seen = "new"
Ends == <>(pc = "end")
Emit == pc = "end" => PrintT("TRACE " \o ToJson([kind |-> plan[1], step |-> plan[2], old |-> old, seen |-> seen, ended |-> ended, writes |-> NumWrites]))
=============================================================================
