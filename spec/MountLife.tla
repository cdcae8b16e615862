------------------------------ MODULE MountLife ------------------------------
(* The life of a mounting process: it waits for a signal or for the kernel to close the  *)
(* connection, unmounts when signalled, and ends.  The kernel may refuse to unmount, may   *)
(* close the connection by itself, and goes on asking until it is closed.                  *)
EXTENDS Integers, TLC

CONSTANTS MaxAsked

VARIABLES kern,   \* "open", "closed"
          sig,    \* a signal was sent
          busy,   \* the kernel refuses to unmount
          main,   \* "wait", "unmount", "close", "over"
          exit,   \* "none", "ok", "fail"
          asked, answered
vars == <<kern, sig, busy, main, exit, asked, answered>>

Init == /\ kern = "open" /\ sig = FALSE /\ busy \in BOOLEAN /\ main = "wait" /\ exit = "none" /\ asked = 0 /\ answered = 0

(* the world *)
Ask == /\ kern = "open" /\ main # "over" /\ asked < MaxAsked /\ asked' = asked + 1 /\ UNCHANGED <<kern, sig, busy, main, exit, answered>>
Signal == /\ main # "over" /\ ~sig /\ sig' = TRUE /\ UNCHANGED <<kern, busy, main, exit, asked, answered>>
Umount == /\ kern = "open" /\ answered = asked /\ kern' = "closed" /\ UNCHANGED <<sig, busy, main, exit, asked, answered>>

(* the process *)
Answer == /\ kern = "open" /\ main # "over" /\ answered < asked /\ answered' = answered + 1 /\ UNCHANGED <<kern, sig, busy, main, exit, asked>>
Signalled == /\ main = "wait" /\ sig /\ main' = "unmount" /\ UNCHANGED <<kern, sig, busy, exit, asked, answered>>
Hangup == /\ main = "wait" /\ kern = "closed" /\ main' = "over" /\ exit' = "ok" /\ UNCHANGED <<kern, sig, busy, asked, answered>>
Unmounted == /\ main = "unmount" /\ kern = "open" /\ ~busy /\ answered = asked
             /\ kern' = "closed" /\ main' = "close" /\ UNCHANGED <<sig, busy, exit, asked, answered>>
Refused == /\ main = "unmount" /\ (busy \/ kern = "closed") /\ main' = "over" /\ exit' = "fail" /\ UNCHANGED <<kern, sig, busy, asked, answered>>
Closed == /\ main = "close" /\ kern = "closed" /\ main' = "over" /\ exit' = "ok" /\ UNCHANGED <<kern, sig, busy, asked, answered>>

Process == Answer \/ Signalled \/ Hangup \/ Unmounted \/ Refused \/ Closed
Next == Ask \/ Signal \/ Umount \/ Process
Spec == Init /\ [][Next]_vars /\ WF_vars(Process)

TypeOK == /\ answered <= asked /\ (exit = "none" <=> main # "over")
(* a clean end leaves nothing mounted; without a signal the end is clean; nothing else ends it *)
Clean == exit = "ok" => kern = "closed"
Failure == exit = "fail" => sig
Stays == (main = "over") => (sig \/ kern = "closed")
(* signalled or unmounted, it ends *)
Ends == (sig \/ kern = "closed") ~> (main = "over")
==============================================================================
