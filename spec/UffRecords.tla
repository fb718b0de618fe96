----------------------------- MODULE UffRecords -----------------------------
(* Fixed-column records.  A record is a sequence of fields                   *)
(*   <<"I", w, v>>     integer v (number string) in w columns                *)
(*   <<"E", w, v, p>>  real v in w columns, at least p significant digits    *)
(*   <<"D", w, v, p>>  the same with the exponent letter D                   *)
(*   <<"A", w, s>>     text s in w columns                                   *)
(*   <<"V", w, x>>     integer or text, x a tagged value                     *)
(*   <<"X", w>>        w blanks                                              *)
(* Values of data-sets are tagged tuples:                                    *)
(*   <<"n", num>>  <<"c", <<re, im>>>>  <<"t", text>>                        *)
(*   <<"N", <<num..>>>>  <<"C", [re |-> <<num..>>, im |-> <<num..>>]>>       *)
(*   <<"T", <<text..>>>>  <<"M", <<<<num..>>..>>>>  <<"MM", ..>>             *)
(*   <<"E", <<dict..>>>>  <<"D", dict>>  <<"0", "">> (None)  <<"?", repr>>   *)
EXTENDS UffNum, SequencesExt

I(w, v) == <<"I", w, v>>
E(w, v, p) == <<"E", w, v, p>>
DP(w, v, p) == <<"D", w, v, p>>
A(w, s) == <<"A", w, s>>
V(w, x) == <<"V", w, x>>
X(w) == <<"X", w>>
K(w, n) == I(w, IntNum(n))          \* a constant

RECURSIVE Width(_)
Width(rec) == IF rec = <<>> THEN 0 ELSE Head(rec)[2] + Width(Tail(rec))

RECURSIVE FlatOf(_, _, _)
FlatOf(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                    ELSE LET m == (i + j) \div 2 IN FlatOf(ss, i, m) \o FlatOf(ss, m + 1, j)
Flat(ss) == FlatOf(ss, 1, Len(ss))

(* sequence s cut into records of at most k members *)
Chunk(s, k) == [i \in 1..CeilDiv(Len(s), k) |-> SubSeq(s, (i - 1) * k + 1, MinOf(i * k, Len(s)))]
Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

(* ------------------------------- reading ------------------------------- *)
FieldOK(f, t) ==    \* t: the text in the columns of f
    CASE f[1] = "I" -> FieldIsInt(ParseNum(Trim(t)), f[3])
      [] f[1] = "E" -> FieldIsReal(ParseNum(Trim(t)), f[3], f[4])
      [] f[1] = "D" -> FieldIsReal(ParseNum(Trim(t)), f[3], f[4]) /\ (HasSub(t, "D", 1) \/ HasSub(t, "d", 1))
      [] f[1] = "A" -> Trim(t) = Trim(f[3])
      [] f[1] = "V" -> IF f[3][1] = "n" THEN FieldIsInt(ParseNum(Trim(t)), f[3][2])
                       ELSE Trim(t) = Trim(f[3][2])
      [] f[1] = "X" -> IsBlank(t)

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(line, rec, j, c) ==       \* fields j.. of rec stand in columns c.. of line
    IF j > Len(rec) THEN IsBlank(SubSeq(line, c, Len(line)))
    ELSE /\ FieldOK(rec[j], Cols(line, c, c + rec[j][2] - 1))
         /\ MatchFrom(line, rec, j + 1, c + rec[j][2])
MatchRec(line, rec) == MatchFrom(line, rec, 1, 1)

(* indices of the records that do not stand in their line; 0 if the counts differ *)
BadRecs(lines, recs) ==
    (IF Len(lines) # Len(recs) THEN {0} ELSE {}) \cup
    {i \in 1..MinOf(Len(lines), Len(recs)) : ~MatchRec(lines[i], recs[i])}

(* ------------------------------ rendering ------------------------------ *)
(* st: [ex: exponent letter, mant: "1" (d.ddd) or "0" (0.ddd)]              *)
FieldText(f, st) ==
    CASE f[1] = "I" -> PadL(IntText(f[3]), f[2])
      [] f[1] \in {"E", "D"} -> PadL(RealText(f[3], f[4] - (IF st.mant = "0" /\ f[4] \in {6, 8} THEN 1 ELSE 0),
                                     st.ex, st.mant), f[2])
      [] f[1] = "A" -> PadR(f[3], f[2])
      [] f[1] = "V" -> IF f[3][1] = "n" THEN PadL(IntText(f[3][2]), f[2]) ELSE PadL(f[3][2], f[2])
      [] f[1] = "X" -> Blanks(f[2])
RECURSIVE RecText(_, _)
RecText(rec, st) == IF rec = <<>> THEN "" ELSE FieldText(Head(rec), st) \o RecText(Tail(rec), st)
=============================================================================
