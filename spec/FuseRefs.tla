------------------------------ MODULE FuseRefs ------------------------------
(* The server's table of inodes under concurrent requests of one directory's lookups    *)
(* and forgets.  A lookup is three steps: look for the parent, add the child to the       *)
(* table, deliver the answer.  The kernel counts a reference when it gets the answer,      *)
(* and forgets only references it has.                                                      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Inodes, Threads, MaxRefs
VARIABLES table, kernel, pc, arg, total
vars == <<table, kernel, pc, arg, total>>
Init == /\ table = [i \in {} |-> 0] /\ kernel = [i \in Inodes |-> 0] /\ pc = [t \in Threads |-> "idle"]
        /\ arg = [t \in Threads |-> 0] /\ total = 0
StartLookup(t) == \E i \in Inodes : /\ pc[t] = "idle" /\ total < MaxRefs /\ total' = total + 1
                                    /\ pc' = [pc EXCEPT ![t] = "look"] /\ arg' = [arg EXCEPT ![t] = i] /\ UNCHANGED <<table, kernel>>
Set(t) == /\ pc[t] = "look"
          /\ table' = [x \in DOMAIN table \cup {arg[t]} |-> (IF x \in DOMAIN table THEN table[x] ELSE 0) + (IF x = arg[t] THEN 1 ELSE 0)]
          /\ pc' = [pc EXCEPT ![t] = "reply"] /\ UNCHANGED <<kernel, arg, total>>
Reply(t) == /\ pc[t] = "reply" /\ kernel' = [kernel EXCEPT ![arg[t]] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<table, arg, total>>
(* the kernel stops counting when it sends the request *)
StartForget(t) == \E i \in Inodes, n \in 1..MaxRefs : /\ pc[t] = "idle" /\ n <= kernel[i] /\ kernel' = [kernel EXCEPT ![i] = @ - n]
                                    /\ pc' = [pc EXCEPT ![t] = "forget"] /\ arg' = [arg EXCEPT ![t] = <<i, n>>] /\ UNCHANGED <<table, total>>
Forget(t) == /\ pc[t] = "forget"
             /\ LET i == arg[t][1] n == arg[t][2] IN
                table' = IF i \notin DOMAIN table THEN table
                         ELSE IF table[i] > n THEN [table EXCEPT ![i] = @ - n]
                         ELSE [x \in DOMAIN table \ {i} |-> table[x]]
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<kernel, arg, total>>
Next == \E t \in Threads : StartLookup(t) \/ Set(t) \/ Reply(t) \/ StartForget(t) \/ Forget(t)
Spec == Init /\ [][Next]_vars
(* what the kernel refers to is in the table, and nothing else stays there *)
Usable == \A i \in Inodes : kernel[i] > 0 => i \in DOMAIN table /\ table[i] >= kernel[i]
Dropped == (\A t \in Threads : pc[t] = "idle") => \A i \in Inodes : (i \in DOMAIN table <=> kernel[i] > 0) /\ (kernel[i] > 0 => table[i] = kernel[i])
=============================================================================
