------------------------------- MODULE Paths -------------------------------
(* Paths are sequences of components; "" is an empty component (a doubled or    *)
(* trailing slash).                                                              *)
EXTENDS Integers, Sequences

RECURSIVE CleanFrom(_, _, _)
CleanFrom(raw, abs, acc) ==
    IF raw = <<>> THEN acc
    ELSE LET h == Head(raw) t == Tail(raw) IN
         IF h \in {"", "."} THEN CleanFrom(t, abs, acc)
         ELSE IF h = ".." THEN
              IF acc # <<>> /\ acc[Len(acc)] # ".." THEN CleanFrom(t, abs, SubSeq(acc, 1, Len(acc) - 1))
              ELSE IF abs THEN CleanFrom(t, abs, acc)
              ELSE CleanFrom(t, abs, Append(acc, ".."))
         ELSE CleanFrom(t, abs, Append(acc, h))

(* Lexical cleaning: of an absolute path, leading parents vanish. *)
Clean(raw, abs) == CleanFrom(raw, abs, <<>>)

(* An empty first component makes a path absolute, however it is written. *)
Rooted(raw, abs) == abs \/ (Len(raw) > 1 /\ raw[1] = "")

Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefix0(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
StrictPrefixes(p) == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}
=============================================================================
