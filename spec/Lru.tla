-------------------------------- MODULE Lru --------------------------------
(* What one reader at a time sees of the memory cache: a read of a block still    *)
(* held needs no fetch; otherwise the block is fetched and displaces the least     *)
(* recently used one if all places are taken.  A failed fetch may or may not have   *)
(* displaced a block.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cap
VARIABLES held      \* sequence of blocks (or "hole"), least recently used first

(* the place of a block whose fetch failed *)
Hole(b) == <<b[1], -1 - b[2]>>
InHeld(b) == \E i \in DOMAIN held : held[i] = b
Drop(s, b) == SelectSeq(s, LAMBDA x : x # b)
Made(s) == IF Len(s) >= Cap THEN Tail(s) ELSE s

Hit(b) == InHeld(b) /\ held' = Append(Drop(held, b), b)
Fetch(b) == ~InHeld(b) /\ held' \in {Append(Made(held), b), Append(Made(Drop(held, Hole(b))), b)}
FetchFails(b) == ~InHeld(b) /\ held' \in {held, Append(Made(held), Hole(b)), Made(held), Append(Made(Drop(held, Hole(b))), Hole(b))}

Bounded == Len(held) <= Cap
=============================================================================
