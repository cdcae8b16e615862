-------------------------------- MODULE Scsi --------------------------------
(* Commands to block devices made from discs: reads of every form anywhere, writes,    *)
(* inquiries, and parts of a disc's source failing and recovering.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes,        \* possible numbers of blocks
          NumDev, MaxOps, Sampled, Lens, Firsts

VARIABLES sizes, bad, hist
vars == <<sizes, bad, hist>>

Reads == {"read6", "read10", "read12", "read16"}
Others == {"write6", "write10", "write12", "write16", "inquiry", "vpd0", "vpd83", "vpdb0", "vpdother", "capacity", "ready", "modesense6", "modesense10", "modeselect6", "modeselect10", "unknown"}
Limit(form) == CASE form = "read6" -> 2097151 [] OTHER -> 2147483647
MaxLen(form) == CASE form = "read6" -> 256 [] form = "read10" -> 65535 [] OTHER -> 2147483647
(* the addresses worth trying on a disc of n blocks *)
Addresses(n) == {x \in ({0, 1, 2, n \div 2, n - 3, n - 2, n - 1, n, n + 1, n + 100} \cup Firsts) : x >= 0}
(* lengths; -1 is so long that the byte count does not fit in 32 bits *)
AllLens == Lens \cup {-1}
Fits(form, lba, len) == lba <= Limit(form) /\ len <= MaxLen(form) /\ (len = -1 => form \in {"read12", "read16"}) /\ (form = "read6" => len # 0)

(* addresses: "wrap" ones are so large that the byte offset does not fit in 64 bits *)
Inside(d, far, lba, len) == far = "no" /\ len # -1 /\ lba + len <= sizes[d]
Touches(d, lba, len) == \E b \in bad[d] : b >= lba /\ b < lba + len
Status(d, op) ==
    CASE op.form \in Reads ->
           IF op.len = 0 /\ (op.far # "no" \/ op.lba >= sizes[d]) THEN "either"
           ELSE IF ~Inside(d, op.far, op.lba, op.len) THEN "error"
           ELSE IF op.len > 0 /\ Touches(d, op.lba, op.len) THEN "error" ELSE "data"
      [] op.form \in {"write6", "write10", "write12", "write16", "unknown"} -> "error"
      [] op.form = "vpdother" -> "error"
      [] op.form \in {"modeselect6", "modeselect10"} -> "either"
      [] OTHER -> "ok"

Init == sizes = <<>> /\ bad = <<>> /\ hist = <<>>
Setup == /\ sizes = <<>>
         /\ IF Sampled THEN \E s \in {[d \in 1..NumDev |-> RandomElement(Sizes)]} : sizes' = s
            ELSE sizes' \in [1..NumDev -> Sizes]
         /\ bad' = [d \in 1..NumDev |-> {}] /\ UNCHANGED hist
Note(e) == hist' = Append(hist, e)
Ops(d) == {[form |-> f, lba |-> a, len |-> l, far |-> w] : f \in Reads, a \in Addresses(sizes[d]), l \in AllLens, w \in {"no", "wrap"}}
DoOp(d, op) == /\ Fits(op.form, op.lba, op.len) /\ (op.far = "wrap" => op.form = "read16")
               /\ Note([e |-> "cmd", d |-> d, op |-> op, want |-> Status(d, op)]) /\ UNCHANGED <<sizes, bad>>
Command == \E d \in 1..NumDev :
    IF Sampled
    THEN \E n \in {RandomElement(1..10)} :
           IF n < 8
           THEN \E f \in {RandomElement(Reads)}, a \in {RandomElement(Addresses(sizes[d]))}, l \in {RandomElement(AllLens)}, w \in {IF RandomElement(1..12) = 1 THEN "wrap" ELSE "no"} :
                  DoOp(d, [form |-> f, lba |-> a, len |-> IF f = "read6" /\ l = 0 THEN 256 ELSE l, far |-> IF f = "read16" THEN w ELSE "no"])
           ELSE \E f \in {RandomElement(Others)}, a \in {RandomElement(Addresses(sizes[d]))}, l \in {RandomElement({0, 1, 4, 5, 16, 35, 36, 96, 255})} :
                  Note([e |-> "cmd", d |-> d, op |-> [form |-> f, lba |-> a, len |-> l, far |-> "no"], want |-> Status(d, [form |-> f])]) /\ UNCHANGED <<sizes, bad>>
    ELSE \E op \in Ops(d) : DoOp(d, op)
Fail == \E d \in 1..NumDev : \E b \in {IF Sampled THEN RandomElement(0..(sizes[d] - 1)) ELSE 1} :
          /\ Cardinality(bad[d]) < 2 /\ b < sizes[d] /\ b \notin bad[d]
          /\ bad' = [bad EXCEPT ![d] = @ \cup {b}] /\ Note([e |-> "fail", d |-> d, b |-> b]) /\ UNCHANGED sizes
Recover == \E d \in 1..NumDev : bad[d] # {} /\ bad' = [bad EXCEPT ![d] = {}] /\ Note([e |-> "recover", d |-> d]) /\ UNCHANGED sizes
Next == Setup \/ (sizes # <<>> /\ Len(hist) < MaxOps /\ (Command \/ Fail \/ Recover))
Spec == Init /\ [][Next]_vars

(* no success outside of the disc or on a failing block *)
DataInside == \A i \in DOMAIN hist : (hist[i].e = "cmd" /\ hist[i].want = "data") => Inside(hist[i].d, hist[i].op.far, hist[i].op.lba, hist[i].op.len)
Refused == \A i \in DOMAIN hist : (hist[i].e = "cmd" /\ hist[i].op.form \in {"write6", "write10", "write12", "write16"}) => hist[i].want = "error"
Emit == Len(hist) = MaxOps => PrintT("TRACE " \o ToJson([sizes |-> sizes, ev |-> hist]))
=============================================================================
