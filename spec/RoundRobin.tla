----------------------------- MODULE RoundRobin -----------------------------
(* Requests to hosts with several addresses; a bounded number of hosts is           *)
(* remembered, the least recently used one is forgotten.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumAddrs,      \* number of addresses of each host; 0: cannot be resolved
          MaxHosts,      \* 0: no limit
          MaxOps, Sampled

SmallNet == <<2, 3, 0>>
OneHost == <<5>>
BigNet == <<1, 2, 3, 4, 5, 0, 7, 0>>

VARIABLES lru,           \* remembered hosts, least recent first
          cnt,           \* requests per address since the host is remembered
          hist
vars == <<lru, cnt, hist>>
Hosts == 1..Len(NumAddrs)
Zero(h) == [a \in 1..NumAddrs[h] |-> 0]
Init == lru = <<>> /\ cnt = [h \in Hosts |-> Zero(h)] /\ hist = <<>>

Without(s, h) == SelectSeq(s, LAMBDA x : x # h)
Remember(h) == LET s == Append(Without(lru, h), h) IN IF MaxHosts > 0 /\ Len(s) > MaxHosts THEN Tail(s) ELSE s
Known(h) == \E i \in DOMAIN lru : lru[i] = h
Counts(h) == IF Known(h) THEN cnt[h] ELSE Zero(h)
Least(c) == CHOOSE x \in {c[a] : a \in DOMAIN c} : \A a \in DOMAIN c : x <= c[a]
(* in turn: only to an address that has had the fewest *)
Request(h, a) == /\ NumAddrs[h] > 0 /\ a \in 1..NumAddrs[h] /\ Counts(h)[a] = Least(Counts(h))
                 /\ cnt' = [cnt EXCEPT ![h] = [Counts(h) EXCEPT ![a] = @ + 1]]
                 /\ lru' = Remember(h)
Refused(h) == NumAddrs[h] = 0 /\ lru' = Remember(h) /\ UNCHANGED cnt

Next == /\ Len(hist) < MaxOps
        /\ IF Sampled
           THEN \E h \in {RandomElement(Hosts)} : hist' = Append(hist, h) /\ (Refused(h) \/ \E a \in 1..NumAddrs[h] : Request(h, a))
           ELSE \E h \in Hosts : hist' = Append(hist, h) /\ (Refused(h) \/ \E a \in 1..NumAddrs[h] : Request(h, a))
Spec == Init /\ [][Next]_vars

Even == \A h \in Hosts : \A a, b \in 1..NumAddrs[h] : cnt[h][a] - cnt[h][b] <= 1
Few == MaxHosts > 0 => Len(lru) <= MaxHosts
Emit == Len(hist) = MaxOps => PrintT("TRACE " \o ToJson([reqs |-> hist]))
View == <<lru, cnt, Len(hist)>>
=============================================================================
