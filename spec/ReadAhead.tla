----------------------------- MODULE ReadAhead -----------------------------
(* The read-ahead controllers of several objects sharing one budget of tokens.     *)
(* A read at off of n units continues the run if it starts where the previous one   *)
(* ended; otherwise it starts a run.  Each read may trigger blocks: after the        *)
(* current one, inside the window and the object, not yet triggered in this run, at  *)
(* most as many as the run has covered, and never more in flight than tokens.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Objs, Size, B, Window, Tokens, MaxReads, MaxLen

VARIABLES pos, run, trig, flight, reads, hist
vars == <<pos, run, trig, flight, reads, hist>>

Blocks == (Size + B - 1) \div B
Ceil(x) == (x + B - 1) \div B

Init == /\ pos = [o \in Objs |-> 0] /\ run = [o \in Objs |-> 0]
        /\ trig = [o \in Objs |-> {}]          \* triggered in the current run
        /\ flight = {}                         \* <<o, block, run>> being fetched
        /\ reads = 0 /\ hist = <<>>

Covered(o, off, n) == IF pos[o] = off THEN run[o] + n ELSE n

May(o, off, n) ==
    LET seq == pos[o] = off IN
    {k \in 0..(Blocks - 1) : k > off \div B /\ k <= off \div B + Window /\ ~(seq /\ k \in trig[o])}

(* progress: if the next block has not been read ahead in this run and a token is  *)
(* free, something is triggered                                                      *)
Forced(o, off, n, S) == (off \div B + 1) \in May(o, off, n) => S # {}

(* the triggers S of a read *)
Read(o, off, n, S) ==
    /\ S \subseteq May(o, off, n)
    /\ Cardinality(S) <= Ceil(Covered(o, off, n))
    /\ Cardinality(flight) + Cardinality(S) <= Tokens
    /\ (May(o, off, n) # {} /\ Cardinality(flight) < Tokens /\ Covered(o, off, n) > 0) => Forced(o, off, n, S)
    /\ trig' = [trig EXCEPT ![o] = (IF pos[o] = off THEN trig[o] ELSE {}) \cup S]
    /\ run' = [run EXCEPT ![o] = Covered(o, off, n)]
    /\ pos' = [pos EXCEPT ![o] = off + n]
    /\ flight' = flight \cup {<<o, k, reads>> : k \in S}
    /\ reads' = reads + 1

Fetched(f) == /\ f \in flight /\ flight' = flight \ {f}
              /\ UNCHANGED <<pos, run, trig, reads>>

Next == \/ /\ reads < MaxReads
           /\ \E o \in Objs, off \in 0..(Size - 1), n \in 0..MaxLen, S \in SUBSET (0..(Blocks - 1)) :
                /\ off + n <= Size /\ Read(o, off, n, S)
                /\ hist' = Append(hist, <<o, off, n>>)
        \/ \E f \in flight : Fetched(f) /\ hist' = Append(hist, <<0, f[2], 0>>)
Spec == Init /\ [][Next]_vars

(* histories for the driver: reads that go on where the last one ended half of the time *)
Likely == \/ /\ reads < MaxReads
             /\ \E w \in {RandomElement(1..4)}, o \in {RandomElement(Objs)}, x \in {RandomElement(0..(Size - 1))}, n \in {RandomElement(0..MaxLen)} :
                  LET off == IF w # 1 /\ pos[o] < Size THEN pos[o] ELSE x
                      m == IF off + n <= Size THEN n ELSE Size - off
                  IN \E S \in SUBSET May(o, off, m) :
                       Read(o, off, m, S) /\ hist' = Append(hist, <<o, off, m>>)
          \/ \E f \in flight : Fetched(f) /\ hist' = Append(hist, <<0, f[2], 0>>)
Sim == Init /\ [][Likely]_vars
Emit == (reads = MaxReads /\ flight = {}) => PrintT("TRACE " \o ToJson([ops |-> hist]))
View == <<pos, run, trig, flight, reads>>

Budget == Cardinality(flight) <= Tokens
Inside == \A f \in flight : f[2] >= 0 /\ f[2] < Blocks
=============================================================================
