------------------------------- MODULE Volume -------------------------------
(* Which sets of huge files fit a volume of fewer than 2^32 sectors?  Sizes are   *)
(* in units of 1/16 TiB (2^25 sectors), of which 128 minus the metadata fit.        *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Units, MaxFiles

VARIABLES files, done
vars == <<files, done>>

Sum == LET f[i \in 0..Len(files)] == IF i = 0 THEN 0 ELSE f[i - 1] + files[i].tib IN f[Len(files)]
Names == <<"a", "b", "c", "d", "e">>

Init == files = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(files) < MaxFiles
       /\ \E u \in Units : files' = Append(files, [name |-> Names[Len(files) + 1], tib |-> u])
       /\ UNCHANGED done
Finish == ~done /\ files # <<>> /\ done' = TRUE /\ UNCHANGED files
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

Fits == Sum < 128
Emit == done => PrintT("TRACE " \o ToJson([files |-> files, fits |-> Fits]))
=============================================================================
