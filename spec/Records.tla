------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* The records of a volume as bytes: the system use entries of SUSP and    *)
(* Rock Ridge, directory records, the primary volume descriptor and path   *)
(* tables, with names and link targets spread over several entries.        *)
(*                                                                         *)
(* Enc gives the bytes of a value and Dec reads bytes.  A behaviour picks  *)
(* a value, encodes it unless it does not fit its record, damages the      *)
(* bytes some number of times and decodes what is left.                    *)
(*                                                                         *)
(* 32-bit numbers are pairs of 16-bit halves, strings are byte sequences,  *)
(* times are <<year, month, day, hour, minute, second, hundredths>>.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kinds,      \* kinds of records to try
          MaxDamage,  \* how often the bytes are damaged
          Sampled     \* draw values at random instead of trying all

VARIABLES phase, val, bytes, damage, done
vars == <<phase, val, bytes, damage, done>>

-----------------------------------------------------------------------------
(* Numbers *)

LE16(n) == <<n % 256, n \div 256>>
BE16(n) == <<n \div 256, n % 256>>
LE32(u) == LE16(u[2]) \o LE16(u[1])
BE32(u) == BE16(u[1]) \o BE16(u[2])
Both16(n) == LE16(n) \o BE16(n)
Both32(u) == LE32(u) \o BE32(u)

Rep(b, n) == [i \in 1..n |-> b]
Part(s, i, n) == SubSeq(s, i, i + n - 1)

GetLE16(s, i) == s[i] + 256 * s[i + 1]
GetBE16(s, i) == 256 * s[i] + s[i + 1]
GetLE32(s, i) == <<GetLE16(s, i + 2), GetLE16(s, i)>>
GetBE32(s, i) == <<GetBE16(s, i), GetBE16(s, i + 2)>>

Agree16(s, i) == GetLE16(s, i) = GetBE16(s, i + 2)
Agree32(s, i) == GetLE32(s, i) = GetBE32(s, i + 4)

-----------------------------------------------------------------------------
(* Times *)

Digit(n) == 48 + n
Digits2(n) == <<Digit((n \div 10) % 10), Digit(n % 10)>>
Digits4(n) == Digits2(n \div 100) \o Digits2(n % 100)
IsDigit(b) == b \in 48..57
Val2(s, i) == 10 * (s[i] - 48) + s[i + 1] - 48

\* Seven bytes for seconds since 1900, seventeen digits otherwise.  The last byte is the offset from UTC.
ShortTime(t) == <<t[1] - 1900, t[2], t[3], t[4], t[5], t[6], 0>>
LongTime(t) == Digits4(t[1]) \o Digits2(t[2]) \o Digits2(t[3]) \o Digits2(t[4]) \o Digits2(t[5]) \o Digits2(t[6]) \o Digits2(t[7]) \o <<0>>
EncTime(long, t) == IF long THEN LongTime(t) ELSE ShortTime(t)
TimeLen(long) == IF long THEN 17 ELSE 7
Res(long, t) == IF long THEN t ELSE [t EXCEPT ![7] = 0]

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
Real(t) == /\ t[2] \in 1..12
           /\ t[3] >= 1 /\ t[3] <= DaysIn(t[1], t[2])
           /\ t[4] < 24 /\ t[5] < 60 /\ t[6] < 60 /\ t[7] < 100

DecTime(long, s, i) ==
    IF long
      THEN IF \A j \in 0..15 : IsDigit(s[i + j])
             THEN <<100 * Val2(s, i) + Val2(s, i + 2), Val2(s, i + 4), Val2(s, i + 6), Val2(s, i + 8), Val2(s, i + 10), Val2(s, i + 12), Val2(s, i + 14)>>
             ELSE <<0, 0, 0, 0, 0, 0, 0>>
      ELSE <<1900 + s[i], s[i + 1], s[i + 2], s[i + 3], s[i + 4], s[i + 5], 0>>
TimeOk(long, s, i) == Real(DecTime(long, s, i)) /\ s[i + TimeLen(long) - 1] = 0

-----------------------------------------------------------------------------
(* System use entries *)

Tags == [SP |-> <<83, 80>>, ST |-> <<83, 84>>, CE |-> <<67, 69>>, ER |-> <<69, 82>>,
         NM |-> <<78, 77>>, PX |-> <<80, 88>>, SL |-> <<83, 76>>, TF |-> <<84, 70>>]
Flag(b) == IF b THEN 1 ELSE 0

Pow2(i) == CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8 [] i = 4 -> 16 [] i = 5 -> 32 [] i = 6 -> 64 [] OTHER -> 128
Bit(n, i) == (n \div Pow2(i)) % 2 = 1

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Present(e) == SumSeq([i \in 1..7 |-> IF e.times[i] = <<>> THEN 0 ELSE Pow2(i - 1)]) + (IF e.long THEN 128 ELSE 0)

Body(e) ==
    CASE e.t = "SP" -> <<190, 239, e.skip>>
      [] e.t = "ST" -> <<>>
      [] e.t = "CE" -> Both32(e.start) \o Both32(e.off) \o Both32(e.len)
      [] e.t = "ER" -> <<Len(e.id), Len(e.desc), Len(e.src), e.ver>> \o e.id \o e.desc \o e.src
      [] e.t = "NM" -> <<Flag(e.cont)>> \o e.data
      [] e.t = "PX" -> Both32(e.mode) \o Both32(e.nlink) \o Both32(e.uid) \o Both32(e.gid) \o Both32(e.ino)
      [] e.t = "SL" -> <<Flag(e.cont), e.flags, Len(e.data)>> \o e.data
      [] e.t = "TF" -> <<Present(e)>> \o FlattenSeq([i \in 1..7 |-> IF e.times[i] = <<>> THEN <<>> ELSE EncTime(e.long, e.times[i][1])])

EntryLen(e) == 4 + Len(Body(e))
EncEntry(e) == Tags[e.t] \o <<EntryLen(e), 1>> \o Body(e)
EntryFits(e) == EntryLen(e) <= 255

EncEntries(es) == FlattenSeq([i \in 1..Len(es) |-> EncEntry(es[i])])

Bad == [ok |-> FALSE]
Good(v) == [ok |-> TRUE, v |-> v]

Known(tag) == \E t \in DOMAIN Tags : Tags[t] = tag
TagName(tag) == CHOOSE t \in DOMAIN Tags : Tags[t] = tag

\* An entry is decoded from its own bytes alone: b is what follows the announced length
DecTF(b) ==
    IF Len(b) < 2 THEN Bad
    ELSE LET long == Bit(b[2], 7)
             n == Cardinality({i \in 0..6 : Bit(b[2], i)})
             at(i) == 3 + TimeLen(long) * Cardinality({j \in 0..(i - 1) : j >= 0 /\ Bit(b[2], j)})
         IN IF Len(b) < 2 + n * TimeLen(long) THEN Bad
            ELSE IF \E i \in 0..6 : Bit(b[2], i) /\ ~TimeOk(long, b, at(i)) THEN Bad
            ELSE Good([t |-> "TF", long |-> long, times |-> [i \in 1..7 |-> IF Bit(b[2], i - 1) THEN <<DecTime(long, b, at(i - 1))>> ELSE <<>>]])

DecEntry(t, b) ==
    IF Len(b) < 1 \/ Head(b) # 1 THEN Bad
    ELSE CASE t = "SP" -> IF Len(b) >= 4 /\ b[2] = 190 /\ b[3] = 239 THEN Good([t |-> "SP", skip |-> b[4]]) ELSE Bad
           [] t = "ST" -> Good([t |-> "ST"])
           [] t = "CE" -> IF Len(b) >= 25 /\ \A i \in {2, 10, 18} : Agree32(b, i)
                            THEN Good([t |-> "CE", start |-> GetLE32(b, 2), off |-> GetLE32(b, 10), len |-> GetLE32(b, 18)])
                            ELSE Bad
           [] t = "ER" -> IF Len(b) >= 5 /\ Len(b) >= 5 + b[2] + b[3] + b[4]
                            THEN Good([t |-> "ER", ver |-> b[5], id |-> Part(b, 6, b[2]), desc |-> Part(b, 6 + b[2], b[3]), src |-> Part(b, 6 + b[2] + b[3], b[4])])
                            ELSE Bad
           [] t = "NM" -> IF Len(b) >= 2 /\ b[2] \in {0, 1} THEN Good([t |-> "NM", cont |-> b[2] = 1, data |-> Part(b, 3, Len(b) - 2)]) ELSE Bad
           [] t = "PX" -> IF Len(b) >= 41 /\ \A i \in {2, 10, 18, 26, 34} : Agree32(b, i)
                            THEN Good([t |-> "PX", mode |-> GetLE32(b, 2), nlink |-> GetLE32(b, 10), uid |-> GetLE32(b, 18), gid |-> GetLE32(b, 26), ino |-> GetLE32(b, 34)])
                            ELSE Bad
           [] t = "SL" -> IF Len(b) >= 4 /\ b[2] \in {0, 1} /\ Len(b) = 4 + b[4]
                            THEN Good([t |-> "SL", cont |-> b[2] = 1, flags |-> b[3], data |-> Part(b, 5, b[4])])
                            ELSE Bad
           [] t = "TF" -> DecTF(b)

RECURSIVE DecEntries(_, _)
DecEntries(s, i) ==
    IF i > Len(s) THEN Good(<<>>)
    ELSE IF i + 3 > Len(s) \/ s[i + 2] < 4 \/ i + s[i + 2] - 1 > Len(s) THEN Bad
    ELSE LET tag == <<s[i], s[i + 1]>>
             rest == DecEntries(s, i + s[i + 2])
         IN IF ~rest.ok THEN Bad
            ELSE IF ~Known(tag) THEN rest
            ELSE LET e == DecEntry(TagName(tag), SubSeq(s, i + 3, i + s[i + 2] - 1))
                 IN IF ~e.ok THEN Bad
                    ELSE IF e.v.t = "ST" /\ i + s[i + 2] <= Len(s) THEN Bad \* what follows the end is not entries
                    ELSE Good(<<e.v>> \o rest.v)

-----------------------------------------------------------------------------
(* Names and link targets *)

RECURSIVE Chunks(_, _)
Chunks(s, n) == IF Len(s) <= n THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Chunks(SubSeq(s, n + 1, Len(s)), n)

NameEntries(data) == LET c == Chunks(data, 250) IN [i \in 1..Len(c) |-> [t |-> "NM", cont |-> i < Len(c), data |-> c[i]]]

RECURSIVE JoinName(_)
JoinName(es) == IF es = <<>> THEN Bad
                ELSE IF ~Head(es).cont THEN Good(Head(es).data)
                ELSE LET r == JoinName(Tail(es)) IN IF r.ok THEN Good(Head(es).data \o r.v) ELSE Bad

Dot == <<46>>
DotDot == <<46, 46>>
Slash == <<47>>

\* The components of one segment of a target.  Flags: 1 the next component belongs to it, 2 ".", 4 "..", 8 the root
SegmentComps(seg) ==
    CASE seg = <<>> -> <<[flags |-> 8, data |-> <<>>]>>
      [] seg = Dot -> <<[flags |-> 2, data |-> <<>>]>>
      [] seg = DotDot -> <<[flags |-> 4, data |-> <<>>]>>
      [] OTHER -> LET c == Chunks(seg, 248) IN [i \in 1..Len(c) |-> [flags |-> Flag(i < Len(c)), data |-> c[i]]]

LinkEntries(segs) == LET c == FlattenSeq([i \in 1..Len(segs) |-> SegmentComps(segs[i])])
                     IN [i \in 1..Len(c) |-> [t |-> "SL", cont |-> i < Len(c), flags |-> c[i].flags, data |-> c[i].data]]

RECURSIVE JoinSegs(_, _)
JoinSegs(es, part) ==
    IF es = <<>> THEN <<>>
    ELSE CASE Bit(Head(es).flags, 1) -> <<Dot>> \o JoinSegs(Tail(es), <<>>)
           [] Bit(Head(es).flags, 2) -> <<DotDot>> \o JoinSegs(Tail(es), <<>>)
           [] Bit(Head(es).flags, 3) -> <<(<<>>)>> \o JoinSegs(Tail(es), <<>>)
           [] Bit(Head(es).flags, 0) -> JoinSegs(Tail(es), part \o Head(es).data)
           [] OTHER -> <<part \o Head(es).data>> \o JoinSegs(Tail(es), <<>>)

WellFormed(es) ==
    /\ es # <<>>
    /\ \A i \in 1..Len(es) : /\ es[i].cont = (i < Len(es))
                             /\ es[i].flags \in {0, 1, 2, 4, 8}
                             /\ (es[i].flags \in {0, 1}) = (es[i].data # <<>>)
                             /\ es[i].flags = 1 => i < Len(es)
    /\ \A i \in 1..(Len(es) - 1) : es[i].flags = 1 => es[i + 1].flags \in {0, 1}

RECURSIVE Target(_)
Target(segs) == IF Len(segs) = 1 THEN segs[1] ELSE segs[1] \o Slash \o Target(Tail(segs))

-----------------------------------------------------------------------------
(* Directory records *)

Padding(n) == IF n % 2 = 0 THEN <<0>> ELSE <<>>
DirLen(r) == 33 + Len(r.id) + Len(Padding(Len(r.id))) + Len(EncEntries(r.su))
DirFits(r) == Len(r.id) <= 30 /\ (\A i \in 1..Len(r.su) : EntryFits(r.su[i])) /\ DirLen(r) <= 255
EncDir(r) == <<DirLen(r), r.ext>> \o Both32(r.start) \o Both32(r.length) \o ShortTime(r.time)
             \o <<r.flags, r.unit, r.gap>> \o Both16(r.vol) \o <<Len(r.id)>> \o r.id \o Padding(Len(r.id)) \o EncEntries(r.su)

DecDir(s) ==
    IF Len(s) < 34 \/ s[1] # Len(s) \/ ~Agree32(s, 3) \/ ~Agree32(s, 11) \/ ~TimeOk(FALSE, s, 19) \/ ~Agree16(s, 29) THEN Bad
    ELSE LET n == s[33]
             at == 34 + n + Len(Padding(n))
         IN IF at - 1 > Len(s) \/ (n % 2 = 0 /\ s[at - 1] # 0) THEN Bad
            ELSE LET su == DecEntries(s, at)
                 IN IF ~su.ok THEN Bad
                    ELSE Good([ext |-> s[2], start |-> GetLE32(s, 3), length |-> GetLE32(s, 11), time |-> DecTime(FALSE, s, 19), flags |-> s[26],
                               unit |-> s[27], gap |-> s[28], vol |-> GetLE16(s, 29), id |-> Part(s, 34, n), su |-> su.v])

-----------------------------------------------------------------------------
(* The primary volume descriptor *)

AChars == (65..90) \cup (48..57) \cup {95} \cup (33..34) \cup (37..47) \cup (58..63)
DChars == (65..90) \cup (48..57) \cup {95}

Padded(s, n) == s \o Rep(32, n - Len(s))
Widths == <<32, 32, 128, 128, 128, 128, 38, 36, 37>>

CD001 == <<67, 68, 48, 48, 49>>
RootRecord(p) == [ext |-> 0, start |-> p.rstart, length |-> p.rlength, time |-> p.rtime, flags |-> 2, unit |-> 0, gap |-> 0, vol |-> 1, id |-> <<0>>, su |-> <<>>]

EncPvd(p) == <<1>> \o CD001 \o <<1, 0>>
    \o Padded(p.strs[1], 32) \o Padded(p.strs[2], 32) \o Rep(0, 8) \o Both32(p.space) \o Rep(0, 32)
    \o Both16(p.setsize) \o Both16(p.seqno) \o Both16(2048) \o Both32(p.ptsize)
    \o LE32(p.lt) \o LE32(p.lt2) \o BE32(p.mt) \o BE32(p.mt2) \o EncDir(RootRecord(p))
    \o FlattenSeq([i \in 1..7 |-> Padded(p.strs[i + 2], Widths[i + 2])])
    \o LongTime(p.times[1]) \o LongTime(p.times[2]) \o Rep(48, 16) \o <<0>> \o LongTime(p.times[3])
    \o <<1, 0>> \o Rep(32, 512) \o Rep(0, 653)

RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s

StrAt == <<9, 41, 191, 319, 447, 575, 703, 741, 777>>
StrChars == <<AChars, DChars, DChars, AChars, AChars, AChars, DChars, DChars, DChars>>
ASeq == SetToSeq(AChars)
DSeq == SetToSeq(DChars)
StrSeqs == <<ASeq, DSeq, DSeq, ASeq, ASeq, ASeq, DSeq, DSeq, DSeq>>
PvdStr(s, i) == TrimRight(Part(s, StrAt[i], Widths[i]))

DecPvd(s) ==
    IF Len(s) # 2048 THEN Bad
    ELSE IF Part(s, 1, 8) # <<1>> \o CD001 \o <<1, 0>> THEN Bad
    ELSE IF \E i \in 1..9 : ~(Range(PvdStr(s, i)) \subseteq StrChars[i]) THEN Bad
    ELSE IF ~Agree32(s, 81) \/ ~Agree16(s, 121) \/ ~Agree16(s, 125) \/ ~Agree16(s, 129) \/ GetLE16(s, 129) # 2048 \/ ~Agree32(s, 133) THEN Bad
    ELSE IF \E i \in {814, 831, 865} : ~TimeOk(TRUE, s, i) THEN Bad
    ELSE LET root == DecDir(Part(s, 157, 34))
         IN IF ~root.ok \/ s[882] # 1 \/ s[883] # 0 THEN Bad
            ELSE Good([strs |-> [i \in 1..9 |-> PvdStr(s, i)], space |-> GetLE32(s, 81), setsize |-> GetLE16(s, 121), seqno |-> GetLE16(s, 125),
                       ptsize |-> GetLE32(s, 133), lt |-> GetLE32(s, 141), lt2 |-> GetLE32(s, 145), mt |-> GetBE32(s, 149), mt2 |-> GetBE32(s, 153),
                       rstart |-> root.v.start, rlength |-> root.v.length, rtime |-> root.v.time,
                       times |-> <<DecTime(TRUE, s, 814), DecTime(TRUE, s, 831), DecTime(TRUE, s, 865)>>])

-----------------------------------------------------------------------------
(* Path tables, in both byte orders *)

EncPt(r, little) == <<Len(r.id), r.ext>> \o (IF little THEN LE32(r.loc) ELSE BE32(r.loc)) \o (IF little THEN LE16(r.parent) ELSE BE16(r.parent))
                    \o r.id \o (IF Len(r.id) % 2 = 1 THEN <<0>> ELSE <<>>)
EncTable(rs, little) == FlattenSeq([i \in 1..Len(rs) |-> EncPt(rs[i], little)])

RECURSIVE DecTable(_, _, _)
DecTable(s, i, little) ==
    IF i > Len(s) THEN <<>>
    ELSE LET n == s[i]
         IN <<[id |-> Part(s, i + 8, n), ext |-> s[i + 1], loc |-> IF little THEN GetLE32(s, i + 2) ELSE GetBE32(s, i + 2),
               parent |-> IF little THEN GetLE16(s, i + 6) ELSE GetBE16(s, i + 6)]>> \o DecTable(s, i + 8 + n + (n % 2), little)

-----------------------------------------------------------------------------
(* Values: k says which kind *)

Fits(x) == CASE x.k = "entries" -> \A i \in 1..Len(x.v) : EntryFits(x.v[i])
             [] x.k = "dir" -> DirFits(x.v)
             [] x.k = "table" -> \A i \in 1..Len(x.v) : Len(x.v[i].id) <= 255
             [] OTHER -> TRUE

Enc(x) == CASE x.k = "entries" -> EncEntries(x.v)
            [] x.k = "name" -> EncEntries(NameEntries(x.v))
            [] x.k = "link" -> EncEntries(LinkEntries(x.v))
            [] x.k = "dir" -> EncDir(x.v)
            [] x.k = "pvd" -> EncPvd(x.v)
            [] x.k = "table" -> EncTable(x.v, TRUE)

Dec(k, s) == CASE k = "entries" -> DecEntries(s, 1)
               [] k = "name" -> LET es == DecEntries(s, 1) IN
                                IF ~es.ok THEN Bad ELSE JoinName(SelectSeq(es.v, LAMBDA e : e.t = "NM"))
               [] k = "link" -> LET es == DecEntries(s, 1) IN
                                IF ~es.ok THEN Bad
                                ELSE LET sl == SelectSeq(es.v, LAMBDA e : e.t = "SL") IN IF WellFormed(sl) THEN Good(JoinSegs(sl, <<>>)) ELSE Bad
               [] k = "dir" -> DecDir(s)
               [] k = "pvd" -> DecPvd(s)
               [] k = "table" -> Good(DecTable(s, 1, TRUE))

\* Values as they come back: short times have no hundredths
EntryBack(e) == IF e.t = "TF" THEN [e EXCEPT !.times = [i \in 1..7 |-> IF e.times[i] = <<>> THEN <<>> ELSE <<Res(e.long, e.times[i][1])>>]] ELSE e
Back(x) == CASE x.k = "entries" -> [i \in 1..Len(x.v) |-> EntryBack(x.v[i])]
             [] x.k = "dir" -> [x.v EXCEPT !.time = Res(FALSE, @), !.su = [i \in 1..Len(x.v.su) |-> EntryBack(x.v.su[i])]]
             [] x.k = "pvd" -> [x.v EXCEPT !.rtime = Res(FALSE, @)]
             [] OTHER -> x.v

-----------------------------------------------------------------------------
(* Choosing values *)

Halves == {0, 1, 255, 256, 32767, 32768, 65535, 4660}
Words == {<<0, 0>>, <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65535>>, <<4660, 22136>>}
Octets == {0, 1, 2, 127, 128, 200, 254, 255}
ShortTimes == {<<1900, 1, 1, 0, 0, 0, 0>>, <<1970, 1, 1, 0, 0, 1, 0>>, <<2000, 2, 29, 23, 59, 59, 99>>, <<2024, 12, 31, 12, 30, 7, 1>>,
               <<2026, 11, 16, 6, 5, 4, 50>>, <<2027, 12, 31, 23, 59, 59, 0>>, <<2028, 1, 1, 0, 0, 0, 0>>, <<2155, 12, 31, 23, 59, 59, 99>>}
LongTimes == ShortTimes \cup {<<1, 1, 1, 0, 0, 0, 0>>, <<999, 10, 10, 10, 10, 10, 10>>, <<1582, 10, 4, 1, 2, 3, 4>>, <<9999, 12, 31, 23, 59, 59, 99>>}

\* Names of one, two, three and four byte characters: units of twenty bytes that may be cut where characters end
Units == << <<97, 66, 48, 46, 95, 126, 33, 92, 97, 195, 169, 206, 169, 228, 184, 173, 240, 159, 152, 128>>,
            <<240, 159, 152, 128, 97, 228, 184, 173, 66, 206, 169, 46, 195, 169, 95, 48, 126, 33, 92, 97>>,
            <<228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 97, 66>>,
            <<97, 66, 48, 97, 66, 48, 97, 66, 48, 97, 66, 48, 97, 66, 48, 97, 66, 48, 97, 66>> >>
Starts(b) == b < 128 \/ b >= 192
Text(n, unit, from) ==
    LET u == Units[unit]
        at(i) == u[1 + ((i + from) % 20)]
        Whole(k) == Starts(at(k + 1))
        skip == CHOOSE k \in 0..3 : Whole(k) /\ \A j \in 0..(k - 1) : ~Whole(j)
        m == CHOOSE k \in 0..n : (k = 0 \/ Whole(skip + k)) /\ \A j \in (k + 1)..n : ~Whole(skip + j)
    IN [i \in 1..m |-> at(skip + i)]
Raw(n, step, from) == [i \in 1..n |-> (i * step + from) % 256]
Upper(n, step, s) == [i \in 1..n |-> s[1 + ((i * step) % Len(s))]]

W(z) == RandomElement(Words)
H(z) == RandomElement(Halves)
O(z) == RandomElement(Octets)
Sizes == {0, 1, 2, 3, 5, 29, 30, 31, 100, 122, 123, 124, 125, 126, 200, 246, 247, 248, 249, 250, 251, 252, 255}
N(set) == RandomElement(set)
RandomTime(long) == IF long THEN RandomElement(LongTimes) ELSE RandomElement(ShortTimes)

RandomEntry(t) ==
    CASE t = "SP" -> [t |-> "SP", skip |-> O(0)]
      [] t = "ST" -> [t |-> "ST"]
      [] t = "CE" -> [t |-> "CE", start |-> W(0), off |-> W(0), len |-> W(0)]
      [] t = "ER" -> [t |-> "ER", ver |-> O(0), id |-> Raw(N({0, 1, 10, 60, 82, 255}), 7, N(0..255)), desc |-> Raw(N({0, 1, 40, 82, 83, 84}), 11, N(0..255)), src |-> Raw(N({0, 1, 30, 82, 83, 135}), 13, N(0..255))]
      [] t = "NM" -> [t |-> "NM", cont |-> N(BOOLEAN), data |-> Text(N(Sizes \cap 0..250), N(1..4), N(0..19))]
      [] t = "PX" -> [t |-> "PX", mode |-> W(0), nlink |-> W(0), uid |-> W(0), gid |-> W(0), ino |-> W(0)]
      [] t = "SL" -> [t |-> "SL", cont |-> N(BOOLEAN), flags |-> N({0, 1}), data |-> Text(N(Sizes \cap 0..248), N(1..4), N(0..19))]
      [] t = "TF" -> LET long == N(BOOLEAN)
                         some == N(SUBSET (1..7))
                     IN [t |-> "TF", long |-> long, times |-> [i \in 1..7 |-> IF i \in some THEN <<RandomTime(long)>> ELSE <<>>]]

RandomEntries(n) == [i \in 1..n |-> RandomEntry(N(DOMAIN Tags \ {"ST"}))] \o (IF N(1..3) = 1 THEN <<RandomEntry("ST")>> ELSE <<>>)
Segment(n) == Text(n, N(1..4), N(0..19))
Plain(n) == [i \in 1..n |-> 97 + (i % 26)]

RandomDir(z) == LET id == Raw(N({0, 1, 2, 12, 13, 29, 30, 30, 31}), 7, N(0..255))
             IN [ext |-> O(0), start |-> W(0), length |-> W(0), time |-> RandomTime(FALSE), flags |-> O(0), unit |-> O(0), gap |-> O(0), vol |-> H(0), id |-> id,
                 su |-> SelectSeq(RandomEntries(N(0..4)), LAMBDA e : e.t # "ER" \/ EntryFits(e))]
\* A directory record filled up with a name, just about
FullDir(z) == LET d == [RandomDir(0) EXCEPT !.su = SelectSeq(@, LAMBDA e : e.t \in {"SP", "CE", "PX"})]
               room == 255 - DirLen(d)
           IN IF Len(d.id) > 30 \/ room < 7 THEN d
              ELSE [d EXCEPT !.su = Append(@, [t |-> "NM", cont |-> FALSE, data |-> Plain(room - 5 + N({0, 0, 0, 1}))])]

RandomPvd(z) == [strs |-> [i \in 1..9 |-> Upper(N({0, 1, Widths[i] - 1, Widths[i], Widths[i]}), N({1, 3, 7}), StrSeqs[i])], space |-> W(0), setsize |-> H(0), seqno |-> H(0), ptsize |-> W(0),
              lt |-> W(0), lt2 |-> W(0), mt |-> W(0), mt2 |-> W(0), rstart |-> W(0), rlength |-> W(0), rtime |-> RandomTime(FALSE), times |-> [i \in 1..3 |-> RandomTime(TRUE)]]

RandomTable(z) == [i \in 1..N(0..6) |-> [id |-> Raw(N({0, 1, 2, 30, 31, 254, 255, 256}), 7, N(0..255)), ext |-> O(0), loc |-> W(0), parent |-> H(0)]]

LinkSegs(z) == LET names == [i \in 1..N(1..4) |-> LET s == Segment(N({1, 2, 3, 30, 247, 248, 249, 250, 255, 496, 497})) IN IF s \in {<<>>, Dot, DotDot} THEN <<97>> ELSE s]
            IN CASE N(1..6) = 1 -> <<Dot>>
                 [] N(1..6) = 2 -> <<(<<>>), (<<>>)>>
                 [] N(1..6) \in {3, 4} -> <<(<<>>)>> \o names
                 [] N(1..2) = 1 -> [i \in 1..N(1..3) |-> DotDot] \o names
                 [] OTHER -> names

RandomValue(k) ==
    CASE k = "entries" -> [k |-> k, v |-> RandomEntries(N(1..5))]
      [] k = "name" -> [k |-> k, v |-> LET s == Segment(N({1, 2, 3, 250, 251, 252, 253, 254, 255, 256, 500, 501, 750, 1000})) IN IF s = <<>> THEN <<97>> ELSE s]
      [] k = "link" -> [k |-> k, v |-> LinkSegs(0)]
      [] k = "dir" -> [k |-> k, v |-> IF N(1..2) = 1 THEN RandomDir(0) ELSE FullDir(0)]
      [] k = "pvd" -> [k |-> k, v |-> RandomPvd(0)]
      [] k = "table" -> [k |-> k, v |-> RandomTable(0)]

\* (the parameter z makes TLC draw anew every time)

\* Small values, all of them
SmallWords == {<<0, 1>>, <<65535, 65535>>, <<4660, 22136>>}
SmallEntries == {[t |-> "SP", skip |-> n] : n \in {0, 255}} \cup {[t |-> "ST"]}
    \cup {[t |-> "CE", start |-> a, off |-> b, len |-> d] : a \in SmallWords, b \in SmallWords, d \in SmallWords}
    \cup {[t |-> "ER", ver |-> 1, id |-> Raw(a, 7, 1), desc |-> Raw(b, 7, 2), src |-> Raw(d, 7, 3)] : a \in {0, 1, 100, 255}, b \in {0, 82, 255}, d \in {0, 65, 66, 255}}
    \cup {[t |-> "NM", cont |-> b, data |-> Text(n, 1, 0)] : b \in BOOLEAN, n \in {0, 1, 2, 249, 250}}
    \cup {[t |-> "PX", mode |-> a, nlink |-> b, uid |-> d, gid |-> b, ino |-> a] : a \in SmallWords, b \in SmallWords, d \in SmallWords}
    \cup {[t |-> "SL", cont |-> b, flags |-> f, data |-> Text(n, 1, 0)] : b \in BOOLEAN, f \in {0, 1}, n \in {1, 2, 247, 248}}
    \cup {[t |-> "SL", cont |-> b, flags |-> f, data |-> <<>>] : b \in BOOLEAN, f \in {2, 4, 8}}
    \cup {[t |-> "TF", long |-> l, times |-> [i \in 1..7 |-> IF i \in s THEN <<t>> ELSE <<>>]] : l \in BOOLEAN, s \in {{}, {1, 2}, {7}, {2, 4, 6}, 1..7}, t \in ShortTimes}

SmallValues(k) ==
    CASE k = "entries" -> {[k |-> k, v |-> <<e>>] : e \in SmallEntries}
      [] k = "name" -> {x \in {[k |-> k, v |-> Text(n, s, 0)] : n \in (1..6) \cup (248..258) \cup (498..503), s \in 2..4} : x.v # <<>>}
      [] k = "link" -> {[k |-> k, v |-> segs] : segs \in {<<Dot>>, <<DotDot>>, <<(<<>>), (<<>>)>>, <<DotDot, <<97>>>>, <<(<<>>), <<97>>, <<66>>>>}}
                       \cup {[k |-> k, v |-> <<(<<>>), Plain(n)>>] : n \in {247, 248, 249, 496, 497}}
      [] k = "dir" -> {[k |-> k, v |-> [ext |-> 1, start |-> w, length |-> <<65535, 65535>>, time |-> t, flags |-> 2, unit |-> 3, gap |-> 4, vol |-> 65535, id |-> Raw(n, 7, 1), su |-> su]] :
                          w \in SmallWords, t \in {<<1900, 1, 1, 0, 0, 0, 0>>, <<2155, 12, 31, 23, 59, 59, 99>>}, n \in {0, 1, 2, 29, 30, 31},
                          su \in {<<>>, <<[t |-> "SP", skip |-> 0]>>, <<[t |-> "NM", cont |-> FALSE, data |-> Plain(184)], [t |-> "ST"]>>, <<[t |-> "NM", cont |-> FALSE, data |-> Plain(222)]>>}}
      [] k = "table" -> {[k |-> k, v |-> <<[id |-> Raw(a, 7, 1), ext |-> 3, loc |-> w, parent |-> 65535], [id |-> Raw(b, 7, 1), ext |-> 255, loc |-> w, parent |-> 1]>>] :
                          a \in {0, 1, 2, 30, 31}, b \in {1, 254, 255, 256}, w \in SmallWords}
      [] k = "pvd" -> {}

-----------------------------------------------------------------------------
Init == /\ phase = "new"
        /\ val = <<>>
        /\ bytes = <<>>
        /\ damage = 0
        /\ done = FALSE

Encode(x) == /\ phase = "new"
             /\ val' = x
             /\ IF Fits(x)
                  THEN phase' = "encoded" /\ bytes' = Enc(x)
                  ELSE phase' = "refused" /\ bytes' = <<>>
             /\ UNCHANGED <<damage, done>>

Damages == val.k # "table" /\ damage < MaxDamage /\ phase = "encoded" /\ bytes # <<>>

SetByte(i, b) == /\ Damages
                 /\ bytes' = [bytes EXCEPT ![i] = b]
                 /\ damage' = damage + 1
                 /\ UNCHANGED <<phase, val, done>>
CutTo(n) == /\ Damages
            /\ bytes' = SubSeq(bytes, 1, n)
            /\ damage' = damage + 1
            /\ UNCHANGED <<phase, val, done>>
Extend(s) == /\ Damages
             /\ bytes' = bytes \o s
             /\ damage' = damage + 1
             /\ UNCHANGED <<phase, val, done>>

Finish == /\ phase \in {"encoded", "refused"}
          /\ ~done
          /\ done' = TRUE
          /\ UNCHANGED <<phase, val, bytes, damage>>

Extra == {<<0>>, <<0, 0, 0>>, <<90, 90, 4, 1>>, <<90, 90, 7, 1, 2, 3, 4>>, <<78, 77, 5, 1, 0>>, <<78, 77, 9, 1, 0, 97>>, <<83, 76, 8, 1, 0, 0, 1, 98>>, <<80, 88, 4, 1>>, <<255, 255, 255>>}

Step ==
    IF phase = "new"
      THEN IF Sampled THEN \E x \in {RandomValue(RandomElement(Kinds))} : Encode(x)
                      ELSE \E k \in Kinds : \E x \in SmallValues(k) : Encode(x)
      ELSE IF Sampled
        THEN IF Damages /\ RandomElement(1..4) # 1
               THEN LET c == RandomElement(1..8)
                        i == RandomElement(1..Len(bytes))
                    IN CASE c = 1 -> \E n \in {RandomElement(0..(Len(bytes) - 1))} : CutTo(n)
                         [] c = 2 -> \E s \in {RandomElement(Extra)} : Extend(s)
                         [] c \in {3, 4} -> \E j \in {RandomElement(1..Len(bytes))} : SetByte(j, (bytes[j] + RandomElement({1, 2, 254, 255})) % 256)
                         [] OTHER -> \E j \in {RandomElement(1..Len(bytes))}, b \in {RandomElement(0..255)} : SetByte(j, b)
               ELSE Finish
        ELSE \/ Finish
             \/ \E i \in {j \in {1, 2, 3, 4, 5} : j <= Len(bytes)}, b \in {0, 3, 255} : SetByte(i, b)
             \/ \E n \in {j \in {0, 1, 3, 5} : j < Len(bytes)} : CutTo(n)
             \/ \E s \in Extra : Extend(s)

Next == ~done /\ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What fits its record comes back as it was
RoundTrip == phase = "encoded" /\ damage = 0 =>
    /\ Dec(val.k, bytes) = Good(Back(val))
    /\ val.k = "table" => DecTable(EncTable(val.v, FALSE), 1, FALSE) = val.v
    /\ val.k = "dir" => Len(bytes) = bytes[1]
    /\ val.k = "pvd" => Len(bytes) = 2048
    /\ \A i \in 1..Len(bytes) : bytes[i] \in 0..255

\* Names and targets of any length fit their entries
AlwaysFit == phase = "encoded" /\ val.k \in {"name", "link"} =>
    \A i \in 1..Len(IF val.k = "name" THEN NameEntries(val.v) ELSE LinkEntries(val.v)) :
        EntryFits((IF val.k = "name" THEN NameEntries(val.v) ELSE LinkEntries(val.v))[i])

\* Values decoded from damaged bytes can be encoded again
Decodes == phase = "encoded" /\ val.k \in {"entries", "dir"} =>
    LET r == Dec(val.k, bytes) IN r.ok => Fits([k |-> val.k, v |-> r.v])

Emit == done => PrintT("TRACE " \o ToJson(
    [k |-> val.k, v |-> IF val.k = "link" THEN <<Target(val.v)>> ELSE val.v, fits |-> phase = "encoded", damage |-> damage, bytes |-> bytes,
     big |-> IF val.k = "table" /\ phase = "encoded" THEN EncTable(val.v, FALSE) ELSE <<>>,
     want |-> IF phase = "refused" THEN Bad
              ELSE LET r == Dec(val.k, bytes)
                   IN IF r.ok /\ val.k = "link" THEN Good(IF r.v = <<>> THEN <<>> ELSE Target(r.v)) ELSE r]))
=============================================================================
