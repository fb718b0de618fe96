------------------------------ MODULE UffFile -------------------------------
(* The framing of a universal file.  A file is a sequence of symbols:         *)
(*   "tag"  the six characters '    -1'      "nl"   a line end                *)
(*   "typ"  the line of type of an ascii data-set ('   164')                  *)
(*   "bin0".."bin9"  the line of type of a 58b data-set with that many        *)
(*          symbols of binary data           "hl"   a line of its header      *)
(*   "txt"  other text                       "byte" other binary data         *)
(* Render builds every conforming file of a class of descriptions; Scan finds *)
(* the data-sets again from the symbols alone, as a reader has to: a closing  *)
(* tag may follow the data directly (fix_58b), records may end with the       *)
(* number -1 and binary data may contain tags, line ends and lines of type.   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Bins == [n \in 0..9 |-> "bin" \o ToString(n)]
IsBin(s) == \E n \in 0..9 : s = Bins[n]
Amount(s) == CHOOSE n \in 0..9 : s = Bins[n]
HeaderLines == 11

(* ------------------------------- rendering ------------------------------- *)
(* block [k: "asc"|"bin", ls: lines (asc), pay: symbols (bin), own: BOOLEAN,  *)
(*        gap: number of empty lines before it]                              *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Lines(ls) == Cat([i \in 1..Len(ls) |-> ls[i] \o <<"nl">>])
Inside(b) == IF b.k = "bin"
             THEN <<Bins[Len(b.pay)], "nl">> \o Cat([i \in 1..HeaderLines |-> <<"hl", "nl">>]) \o b.pay \o <<"nl">>
             ELSE <<"typ", "nl">> \o Lines(b.ls)
(* the joined closing tag takes the place of the last line end *)
Block(b) == LET s == Inside(b) IN <<"tag", "nl">> \o (IF b.own THEN s ELSE SubSeq(s, 1, Len(s) - 1)) \o <<"tag">>
Gap(b) == [i \in 1..b.gap |-> "nl"]
RECURSIVE File(_)
File(bs) == IF bs = <<>> THEN <<>>
            ELSE Gap(Head(bs)) \o Block(Head(bs)) \o (IF Len(bs) > 1 THEN <<"nl">> ELSE <<>>) \o File(Tail(bs))
Render(f) == File(f.bs) \o (IF f.final /\ f.bs # <<>> THEN <<"nl">> ELSE <<>>)
(* the positions of the tags of the blocks *)
RECURSIVE Places(_, _)
Places(bs, at) ==
    IF bs = <<>> THEN <<>>
    ELSE LET b == Head(bs) s == at + b.gap e == s + Len(Block(b)) - 1
         IN <<<<s + 1, e + 1>>>> \o Places(Tail(bs), e + 2)

(* -------------------------------- scanning ------------------------------- *)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE "end"
EndsLine(s, i) == At(s, i + 1) \in {"nl", "end"}
StartsLine(s, i) == i = 1 \/ At(s, i - 1) = "nl"
IsTag(s, i) == At(s, i) = "tag" /\ EndsLine(s, i)
NextLine(s, i) == IF \E j \in i..Len(s) : s[j] = "nl" THEN 1 + CHOOSE j \in i..Len(s) : s[j] = "nl" /\ \A m \in i..(j - 1) : s[m] # "nl"
                  ELSE Len(s) + 1
RECURSIVE Skip(_, _, _)
Skip(s, i, n) == IF n = 0 THEN i ELSE Skip(s, NextLine(s, i), n - 1)
OnlyEnds(s, i) == \A j \in i..Len(s) : s[j] = "nl"
(* does the tag at i, which follows something in its line, close an ascii block? *)
ClosesAscii(s, i) ==
    LET j == NextLine(s, i) IN OnlyEnds(s, j) \/ (IsTag(s, j) /\ (At(s, NextLine(s, j)) = "typ" \/ IsBin(At(s, NextLine(s, j)))))
ClosesBinary(s, i, end) == i >= end /\ \A j \in end..(i - 1) : s[j] = "nl" /\ i <= end + 1
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Closing(s, open) ==
    LET ln == NextLine(s, open)
        rest == {i \in (open + 1)..Len(s) : IsTag(s, i)}
        asc == {i \in rest : StartsLine(s, i) \/ ClosesAscii(s, i)}
    IN IF IsBin(At(s, ln))
       THEN LET end == Skip(s, ln, 1 + HeaderLines) + Amount(s[ln])
                c == {i \in rest : ClosesBinary(s, i, end)}
            IN IF c # {} THEN First(c) ELSE IF rest # {} THEN First(rest) ELSE 0
       ELSE IF asc = {} THEN 0 ELSE First(asc)
RECURSIVE ScanFrom(_, _)
ScanFrom(s, i) ==
    LET opens == {j \in i..Len(s) : IsTag(s, j) /\ StartsLine(s, j)}
    IN IF opens = {} THEN <<>>
       ELSE LET o == First(opens) c == Closing(s, o)
            IN IF c = 0 THEN <<>> ELSE <<<<o, c>>>> \o ScanFrom(s, c + 1)
Scan(s) == ScanFrom(s, 1)

(* ------------------------------- the class ------------------------------- *)
CONSTANTS MaxLines, MaxPay, MaxBlocks, Gaps
LineKinds == {<<>>, <<"txt">>, <<"txt", "tag">>, <<"typ">>, <<"tag", "txt">>, <<"tag", "tag">>}
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
(* an empty last line cannot take the closing tag, nor one that would then be a tag alone *)
CanJoin(ls) == ls # <<>> /\ ls[Len(ls)] # <<>>
Asc == {[k |-> "asc", ls |-> ls, pay |-> <<>>, own |-> o, gap |-> g] : ls \in SeqsTo(LineKinds, MaxLines), o \in BOOLEAN, g \in Gaps}
Bin == {[k |-> "bin", ls |-> <<>>, pay |-> p, own |-> o, gap |-> g] : p \in SeqsTo({"byte", "nl", "tag"}, MaxPay), o \in BOOLEAN, g \in Gaps}
Fits(b) == b.own \/ b.k = "bin" \/ CanJoin(b.ls)
BlockSet == {b \in Asc \cup Bin : Fits(b)}

VARIABLE f
(* after a joined tag of text comes the next data-set at once *)
Follows(bs) == \A i \in 2..Len(bs) : bs[i].gap > 0 => bs[i - 1].own \/ bs[i - 1].k = "bin"
Init == \E n \in 0..MaxBlocks : \E bs \in [1..n -> BlockSet], fin \in BOOLEAN : Follows(bs) /\ f = [bs |-> bs, final |-> fin]
Next == FALSE /\ UNCHANGED f
Spec == Init /\ [][Next]_f
Recovers == Scan(Render(f)) = Places(f.bs, 0)
(* the files, for the harness to build and hand to the code *)
Emit == PrintT("@@FRAME " \o ToJson(f))
=============================================================================
