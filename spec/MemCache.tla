------------------------------ MODULE MemCache ------------------------------
(* The memory cache with concurrent readers.  A reader asks the pool for the      *)
(* buffer of its block (hit, new buffer, or the least recently used one, given a   *)
(* new name), then locks the buffer, fills it unless it already holds the block,    *)
(* and copies.  Between asking and locking the buffer may be given to another        *)
(* block.                                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, Blocks, Cap, MaxReads, MaxFails

None == 0
Failed == -1
Bufs == 1..Cap

VARIABLES lru,      \* sequence of <<block, buffer>>, least recently used first
          used,     \* buffers made so far
          holds,    \* block in each buffer (None: nothing valid)
          owner,    \* reader holding the buffer's lock
          pc, want, buf, got,
          reads, fails, hist
vars == <<lru, used, holds, owner, pc, want, buf, got, reads, fails, hist>>

Init == /\ lru = <<>> /\ used = 0
        /\ holds = [b \in Bufs |-> None] /\ owner = [b \in Bufs |-> None]
        /\ pc = [r \in Readers |-> "idle"] /\ want = [r \in Readers |-> None]
        /\ buf = [r \in Readers |-> 0] /\ got = [r \in Readers |-> None]
        /\ reads = 0 /\ fails = 0 /\ hist = <<>>

Pos(k) == {i \in DOMAIN lru : lru[i][1] = k}
Without(i) == SubSeq(lru, 1, i - 1) \o SubSeq(lru, i + 1, Len(lru))

Ask(r, k) ==
    /\ pc[r] = "idle" /\ reads < MaxReads
    /\ reads' = reads + 1
    /\ want' = [want EXCEPT ![r] = k]
    /\ got' = [got EXCEPT ![r] = None]
    /\ pc' = [pc EXCEPT ![r] = "asked"]
    /\ IF Pos(k) # {}
       THEN LET i == CHOOSE x \in Pos(k) : TRUE IN
            /\ buf' = [buf EXCEPT ![r] = lru[i][2]]
            /\ lru' = Append(Without(i), lru[i])
            /\ UNCHANGED used
       ELSE IF used < Cap
       THEN /\ used' = used + 1
            /\ buf' = [buf EXCEPT ![r] = used + 1]
            /\ lru' = Append(lru, <<k, used + 1>>)
       ELSE /\ buf' = [buf EXCEPT ![r] = lru[1][2]]
            /\ lru' = Append(Tail(lru), <<k, lru[1][2]>>)
            /\ UNCHANGED used
    /\ hist' = Append(hist, [e |-> "start", r |-> r, b |-> k])
    /\ UNCHANGED <<holds, owner, fails>>

Lock(r) ==
    /\ pc[r] = "asked" /\ owner[buf[r]] = None
    /\ owner' = [owner EXCEPT ![buf[r]] = r]
    /\ IF holds[buf[r]] = want[r]
       THEN pc' = [pc EXCEPT ![r] = "copy"] /\ UNCHANGED holds
       ELSE pc' = [pc EXCEPT ![r] = "fill"] /\ holds' = [holds EXCEPT ![buf[r]] = None]
    /\ UNCHANGED <<lru, used, want, buf, got, reads, fails, hist>>

FillOk(r) ==
    /\ pc[r] = "fill"
    /\ holds' = [holds EXCEPT ![buf[r]] = want[r]]
    /\ pc' = [pc EXCEPT ![r] = "copy"]
    /\ hist' = Append(hist, [e |-> "release", b |-> want[r], ok |-> TRUE])
    /\ UNCHANGED <<lru, used, owner, want, buf, got, reads, fails>>

FillErr(r) ==
    /\ pc[r] = "fill" /\ fails < MaxFails
    /\ fails' = fails + 1
    /\ pc' = [pc EXCEPT ![r] = "idle"]
    /\ got' = [got EXCEPT ![r] = Failed]
    /\ owner' = [owner EXCEPT ![buf[r]] = None]
    /\ hist' = Append(hist, [e |-> "release", b |-> want[r], ok |-> FALSE])
    /\ UNCHANGED <<lru, used, holds, want, buf, reads>>

Copy(r) ==
    /\ pc[r] = "copy"
    /\ got' = [got EXCEPT ![r] = holds[buf[r]]]
    /\ owner' = [owner EXCEPT ![buf[r]] = None]
    /\ pc' = [pc EXCEPT ![r] = "idle"]
    /\ UNCHANGED <<lru, used, holds, want, buf, reads, fails, hist>>

Next == \E r \in Readers : (\E k \in Blocks : Ask(r, k)) \/ Lock(r) \/ FillOk(r) \/ FillErr(r) \/ Copy(r)
Fair == WF_vars(\E r \in Readers : Lock(r) \/ FillOk(r) \/ Copy(r))
Spec == Init /\ [][Next]_vars /\ Fair

Idle == \A r \in Readers : pc[r] = "idle"

---------------------------------------------------------------------------
RightBytes == \A r \in Readers : pc[r] = "idle" => got[r] \in {None, Failed, want[r]}
Budget == Len(lru) <= Cap /\ used <= Cap
OneBufferEach == \A i, j \in DOMAIN lru : i # j => lru[i][1] # lru[j][1] /\ lru[i][2] # lru[j][2]
Exclusive == \A r, s \in Readers : r # s /\ pc[r] \in {"fill", "copy"} /\ pc[s] \in {"fill", "copy"} => buf[r] # buf[s]
(* without displacement, one fetch of a block at a time *)
SingleFetch == Cardinality(Blocks) <= Cap =>
    \A r, s \in Readers : r # s /\ pc[r] = "fill" /\ pc[s] = "fill" => want[r] # want[s]
(* without displacement and failures, each block is fetched once *)
FetchedOnce == Cardinality(Blocks) <= Cap =>
    \A k \in Blocks : Cardinality({i \in DOMAIN hist : hist[i].e = "release" /\ hist[i].b = k /\ hist[i].ok}) <= 1
NoStuck == ~Idle => ENABLED (\E r \in Readers : Lock(r) \/ FillOk(r) \/ Copy(r))
AllEnd == []<>Idle

View == <<lru, used, holds, owner, pc, want, buf, got, reads, fails>>
Emit == (reads = MaxReads /\ Idle) => PrintT("TRACE " \o ToJson([ev |-> hist]))
=============================================================================
