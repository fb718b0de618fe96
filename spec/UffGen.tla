------------------------------- MODULE UffGen -------------------------------
(* Renders files as other programs may write them: the standard's records of  *)
(* UffTypes in every admitted style.  A case is a file,                       *)
(*   [id, blocks: <<block..>>, final: has the last line an end]               *)
(*   block  [k: "ok", d: data-set (all fields), fd, st: style]                *)
(*          [k: "raw", ls: text lines between the delimiters, st: style,      *)
(*           join: closing tag joined to the last line]                       *)
(*          [k: "pay", ls: text lines, h: hex bytes after them, st: style]    *)
(*   style  [ex, mant, pad: "none"|"80"|"strip", eol: "lf"|"crlf", dpad, omit,*)
(*           fill, bo: 1|2, up: "b"|"B", own: closing tag on its own line,     *)
(*           left: type number left-justified, ts: text after the type number, *)
(*           gap: lines between the data-set and the one before]               *)
(* A rendered file is a sequence of parts [t: text, h: hex bytes, e: line end, *)
(* c: is it a closing delimiter].                                             *)
EXTENDS UffTypes, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.UFF_CASES)

Styles == [ex : {"e", "E"}, mant : {"1", "0"}, pad : {"none", "80", "strip"}, eol : {"lf", "crlf"}, dpad : BOOLEAN,
           omit : BOOLEAN, fill : BOOLEAN, bo : {1, 2}, up : {"b", "B"}, own : BOOLEAN]

(* ------------------- records a program may leave shorter ----------------- *)
(* number of fields of body record i that must be there *)
MinFields(d, i, rec) ==
    LET t == TypeOf(d) n == Len(rec)
    IN CASE t = "58" /\ i = 6 -> 1
         [] t = "58" /\ i \in 8..11 -> 4
         [] t = "151" /\ i = 4 -> 2
         [] t = "151" /\ i \in {5, 7} -> 1
         [] t = "164" /\ i = 1 -> 1
         [] t = "2414" /\ i \in 10..13 /\ Val(d, "analysis_type") # IntNum(5) -> 1
         [] OTHER -> n
IsDefault(f) == CASE f[1] \in {"I", "E", "D"} -> NumIsZero(f[3])
                  [] f[1] = "A" -> f[3] = ""
                  [] f[1] = "V" -> (f[3][1] = "n" /\ NumIsZero(f[3][2]))
                  [] f[1] = "X" -> TRUE
RECURSIVE DropTail(_, _)
DropTail(rec, m) == IF Len(rec) > m /\ IsDefault(rec[Len(rec)]) THEN DropTail(SubSeq(rec, 1, Len(rec) - 1), m) ELSE rec
(* I-DEAS fills the last node record of a trace line with zeros *)
Filled(rec) == rec \o [i \in 1..(8 - Len(rec)) |-> K(10, 0)]
Recs(d, fd, st) ==
    LET b == Body(d, fd) n == Len(b)
        cut(i) == IF st.omit THEN DropTail(b[i], MinFields(d, i, b[i])) ELSE b[i]
    IN [i \in 1..n |-> IF st.fill /\ TypeOf(d) = "82" /\ i = n /\ i > 2 THEN Filled(b[i]) ELSE cut(i)]

(* --------------------------------- text ---------------------------------- *)
Eol(st) == IF st.eol = "crlf" THEN "\r\n" ELSE "\n"
Padded(s, st) == CASE st.pad = "80" -> PadR(s, 80) [] st.pad = "strip" -> RTrim(s) [] OTHER -> s
Tx(s, st) == [t |-> s, h |-> "", e |-> Eol(st), c |-> FALSE]
Delim(st) == [t |-> IF st.dpad THEN PadR("    -1", 80) ELSE "    -1", h |-> "", e |-> Eol(st), c |-> FALSE]
Closer(st) == [Delim(st) EXCEPT !.c = TRUE]
TypeText(d, fd, st) ==
    LET s == RecText(TypeRecord(d, fd, st.bo), st)
    IN IF TypeOf(d) = "58" /\ Binary(d) THEN SubSeq(s, 1, 6) \o st.up \o SubSeq(s, 8, Len(s))
       ELSE (IF st.left THEN PadR(LTrim(s), 6) ELSE s) \o st.ts
Block(b) ==
    LET st == b.st
    IN IF b.k = "raw"
       THEN LET ls == [i \in 1..Len(b.ls) |-> Tx(b.ls[i], st)]
            IN <<Delim(st)>> \o (IF "join" \in DOMAIN b /\ b.join THEN [ls EXCEPT ![Len(ls)].e = ""] ELSE ls) \o <<Closer(st)>>
       ELSE IF b.k = "pay"
       THEN <<Delim(st)>> \o [i \in 1..Len(b.ls) |-> Tx(b.ls[i], st)]
            \o <<[t |-> "", h |-> b.h, e |-> IF st.own THEN Eol(st) ELSE "", c |-> FALSE, pay |-> TRUE], Closer(st)>>
       ELSE LET rs == Recs(b.d, b.fd, st)
                text == [i \in 1..Len(rs) |-> Tx(Padded(RecText(rs[i], st), st), st)]
                head == <<Delim(st), Tx(Padded(TypeText(b.d, b.fd, st), st), st)>>
            IN IF TypeOf(b.d) = "58" /\ Binary(b.d)
               THEN head \o text \o <<[t |-> "", h |-> Payload(b.d, b.fd, st.bo = 1), e |-> IF st.own THEN Eol(st) ELSE "", c |-> FALSE, pay |-> TRUE],
                                      Closer(st)>>
               ELSE head \o text \o <<Closer(st)>>
GapBefore(st) == [i \in 1..Len(st.gap) |-> Tx(st.gap[i], st)]
RECURSIVE Blocks(_)
Blocks(bs) == IF bs = <<>> THEN <<>> ELSE GapBefore(Head(bs).st) \o Block(Head(bs)) \o Blocks(Tail(bs))
File(c) == LET ps == Blocks(c.blocks)
           IN IF c.final \/ ps = <<>> THEN ps ELSE [ps EXCEPT ![Len(ps)].e = ""]

(* ------------------------------- fix_58b --------------------------------- *)
(* the same file with every closing delimiter joined to the line before it, *)
(* unless that is empty: the delimiter would be a line of its own all the same *)
Empty(p) == p.t = "" /\ p.h = "" /\ "pay" \notin DOMAIN p
Joined(ps) == [i \in 1..Len(ps) |->
               IF i < Len(ps) /\ ps[i + 1].c /\ ~Empty(ps[i]) THEN [ps[i] EXCEPT !.e = ""] ELSE ps[i]]

VARIABLE k
Init == k \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
Emit == PrintT("@@FILE " \o ToJson([id |-> Cases[k].id, parts |-> File(Cases[k])]
                    @@ (IF "fix" \in DOMAIN Cases[k] /\ Cases[k].fix THEN [fixed |-> Joined(File(Cases[k]))] ELSE [none |-> 0])))

=============================================================================
