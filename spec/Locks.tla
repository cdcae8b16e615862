------------------------------- MODULE Locks -------------------------------
(* Advisory locks: exclusive ("x") and shared ("s"), by contenders that may die.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Contenders, Locked, MaxOps

VARIABLES st, hist
(* st[c] = <<state, kind, lock>>, state: "idle", "waits", "has", "dead" *)
Idle == <<"idle", "none", 0>>
vars == <<st, hist>>
Init == st = [c \in Contenders |-> Idle] /\ hist = <<>>

Log(e) == hist' = Append(hist, e)
Request(c, k, l) == /\ st[c][1] = "idle" /\ st' = [st EXCEPT ![c] = <<"waits", k, l>>]
Conflict(c, d) == d # c /\ st[d][1] = "has" /\ st[d][3] = st[c][3] /\ (st[d][2] = "x" \/ st[c][2] = "x")
Grant(c) == /\ st[c][1] = "waits" /\ ~\E d \in Contenders : Conflict(c, d)
            /\ st' = [st EXCEPT ![c][1] = "has"]
Release(c) == st[c][1] = "has" /\ st' = [st EXCEPT ![c] = Idle]
Die(c) == st[c][1] \in {"has", "waits"} /\ st' = [st EXCEPT ![c] = <<"dead", "none", 0>>]

Next == \E c \in Contenders :
          \/ Len(hist) < MaxOps /\ \E k \in {"x", "s"}, l \in Locked : Request(c, k, l) /\ Log([e |-> "request", c |-> c, k |-> k, l |-> l])
          \/ Grant(c) /\ UNCHANGED hist
          \/ Release(c) /\ Log([e |-> "release", c |-> c])
          \/ Len(hist) < MaxOps /\ Len(hist) % 3 = 0 /\ Die(c) /\ Log([e |-> "die", c |-> c])
Spec == Init /\ [][Next]_vars /\ WF_st(\E c \in Contenders : Grant(c)) /\ \A c \in Contenders : WF_st(Release(c))

Exclusive == \A c, d \in Contenders : c # d /\ st[c][1] = "has" /\ st[d][1] = "has" /\ st[c][3] = st[d][3] => st[c][2] = "s" /\ st[d][2] = "s"
(* with nobody holding, somebody waiting can go on *)
NoStuck == \A l \in Locked : (\A c \in Contenders : ~(st[c][1] = "has" /\ st[c][3] = l)) =>
              \A c \in Contenders : st[c][1] = "waits" /\ st[c][3] = l => ENABLED Grant(c)
SomeoneGoes == []<>(\A c \in Contenders : st[c][1] # "has")
View == <<st, Len(hist)>>
Over == (Len(hist) >= MaxOps \/ \A c \in Contenders : st[c][1] = "dead") /\ \A c \in Contenders : st[c][1] \in {"idle", "dead"}
Emit == Over => PrintT("TRACE " \o ToJson([ops |-> hist]))
=============================================================================
