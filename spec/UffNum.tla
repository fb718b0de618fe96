------------------------------- MODULE UffNum -------------------------------
(* Text and number primitives of the universal file format.                 *)
(*                                                                          *)
(* Numbers never appear as TLC integers (they would overflow): a number is  *)
(* a string of fixed layout  "+12345678901234567E+003"  = sign, 17 decimal  *)
(* digits d1 d2 .. d17, exponent, meaning  sign d1.d2..d17 * 10^exponent.   *)
(* 17 digits identify an IEEE double.  "nan", "+inf", "-inf" are the        *)
(* non-finite ones.  A number field of a file is plain text ("-1.50000E-03",*)
(* "  12", "1.5D+00") and is parsed here, digit by digit.                   *)
EXTENDS Naturals, Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
DigitVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
         @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
DigitChars == DOMAIN DigitVal
DigitOf == [n \in 0..9 |-> ToString(n)]
ExpChars == {"e", "E", "d", "D"}

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN c
             ELSE LET h == Rep(c, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o c
Spaces80 == Rep(" ", 160)
Blanks(n) == IF n <= 160 THEN SubSeq(Spaces80, 1, n) ELSE Rep(" ", n)
Zeros(n) == Rep("0", n)

(* -------------------------- trimming and padding ------------------------ *)
IsBlank(s) == s = Blanks(Len(s))

RECURSIVE FirstNonBlank(_, _)
FirstNonBlank(s, i) == IF i > Len(s) THEN i
                       ELSE IF Ch(s, i) = " " THEN FirstNonBlank(s, i + 1) ELSE i
RECURSIVE LastNonBlank(_, _)
LastNonBlank(s, i) == IF i = 0 THEN 0
                      ELSE IF Ch(s, i) = " " THEN LastNonBlank(s, i - 1) ELSE i
LTrim(s) == SubSeq(s, FirstNonBlank(s, 1), Len(s))
RTrim(s) == SubSeq(s, 1, LastNonBlank(s, Len(s)))
Trim(s) == IF IsBlank(s) THEN "" ELSE SubSeq(s, FirstNonBlank(s, 1), LastNonBlank(s, Len(s)))

PadR(s, w) == IF Len(s) >= w THEN s ELSE s \o Blanks(w - Len(s))
PadL(s, w) == IF Len(s) >= w THEN s ELSE Blanks(w - Len(s)) \o s
(* columns i..j of a line, blank beyond its end *)
Cols(s, i, j) == PadR(SubSeq(s, i, MinOf(j, Len(s))), j - i + 1)

RECURSIVE HasSub(_, _, _)
HasSub(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN FALSE
                     ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN TRUE ELSE HasSub(s, t, i + 1)

(* --------------------------- integer conversion ------------------------- *)
RECURSIVE DigitsToNat(_, _, _)
DigitsToNat(s, i, acc) == IF i > Len(s) THEN acc
                          ELSE DigitsToNat(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitChars
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
ExpStr(e) == IF e < 0 THEN "E-" \o Pad3(-e) ELSE "E+" \o Pad3(e)

NumZero == "+00000000000000000E+000"
(* number string of a natural number of TLC *)
NatNum(n) == IF n = 0 THEN NumZero
             ELSE LET t == ToString(n) IN "+" \o t \o Zeros(17 - Len(t)) \o ExpStr(Len(t) - 1)
IntNum(n) == IF n < 0 THEN "-" \o SubSeq(NatNum(-n), 2, 23) ELSE NatNum(n)

IsFinite(v) == Len(v) = 23
NumSign(v) == Ch(v, 1)
NumDigits(v) == SubSeq(v, 2, 18)
NumExp(v) == LET a == DigitsToNat(SubSeq(v, 21, 23), 1, 0) IN IF Ch(v, 20) = "-" THEN -a ELSE a
NumIsZero(v) == NumDigits(v) = "00000000000000000"

(* ------------------------- digit-string arithmetic ---------------------- *)
(* d + 1 unit in the last place; the result may have one digit more *)
RECURSIVE IncDigits(_)
IncDigits(d) == IF d = "" THEN "1"
                ELSE LET n == Len(d) c == Ch(d, n) p == SubSeq(d, 1, n - 1)
                     IN IF c = "9" THEN IncDigits(p) \o "0" ELSE p \o DigitOf[DigitVal[c] + 1]

(* [d |-> digits, e |-> exponent] with k digits, rounded down / up *)
Down(d, e, k) == [d |-> SubSeq(d, 1, k), e |-> e]
Up(d, e, k) == LET u == IncDigits(SubSeq(d, 1, k))
               IN IF Len(u) > k THEN [d |-> SubSeq(u, 1, k), e |-> e + 1] ELSE [d |-> u, e |-> e]
(* the correct roundings of a 17-digit number to k digits (two at a tie) *)
Roundings(d, e, k) ==
    IF k >= Len(d) THEN {[d |-> d \o Zeros(k - Len(d)), e |-> e]}
    ELSE LET c == DigitVal[Ch(d, k + 1)]
         IN IF c < 5 THEN {Down(d, e, k)}
            ELSE IF c > 5 THEN {Up(d, e, k)}
            ELSE {Down(d, e, k), Up(d, e, k)}

(* ----------------------------- number fields ---------------------------- *)
RECURSIVE FindIn(_, _, _)
FindIn(s, C, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in C THEN i ELSE FindIn(s, C, i + 1)

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN StripZeros(SubSeq(d, 2, Len(d))) ELSE d

BadField == [ok |-> FALSE, int |-> FALSE, s |-> "+", d |-> "", e |-> 0, n |-> 0]
(* Parses trimmed text: [ok, int (no point, no exponent), sign, digits without leading zeros,
   decimal exponent of the first digit, n number of significant digits given] *)
ParseNum(t) ==
    LET signed == t # "" /\ Ch(t, 1) \in {"+", "-"}
        s == IF signed THEN Ch(t, 1) ELSE "+"
        u == IF signed THEN SubSeq(t, 2, Len(t)) ELSE t
        x == FindIn(u, ExpChars, 1)
        m == IF x = 0 THEN u ELSE SubSeq(u, 1, x - 1)
        et == IF x = 0 THEN "" ELSE SubSeq(u, x + 1, Len(u))
        esigned == et # "" /\ Ch(et, 1) \in {"+", "-"}
        ed == IF esigned THEN SubSeq(et, 2, Len(et)) ELSE et
        p == FindIn(m, {"."}, 1)
        ip == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
        fp == IF p = 0 THEN "" ELSE SubSeq(m, p + 1, Len(m))
        digits == ip \o fp
    IN IF ~AllDigits(digits) \/ (x # 0 /\ (~AllDigits(ed) \/ Len(ed) > 3)) THEN BadField
       ELSE LET ev == IF x = 0 THEN 0
                      ELSE LET a == DigitsToNat(ed, 1, 0) IN IF esigned /\ Ch(et, 1) = "-" THEN -a ELSE a
                sd == StripZeros(digits)
            IN [ok |-> TRUE, int |-> x = 0 /\ p = 0, s |-> s, d |-> sd,
                e |-> ev + Len(ip) - 1 - (Len(digits) - Len(sd)), n |-> Len(sd)]
FieldIsZero(f) == f.d = "0"

(* Does the parsed real field carry the number v with at least p digits? *)
FieldIsReal(f, v, p) ==
    /\ f.ok /\ ~f.int
    /\ IsFinite(v)
    /\ IF NumIsZero(v) \/ FieldIsZero(f) THEN NumIsZero(v) /\ FieldIsZero(f)
       ELSE /\ f.s = NumSign(v)
            /\ f.n >= p
            /\ LET k == MinOf(f.n, 17)
               IN [d |-> SubSeq(f.d, 1, k), e |-> f.e] \in Roundings(NumDigits(v), NumExp(v), k)
(* Does the parsed integer field carry the number v exactly? *)
FieldIsInt(f, v) ==
    /\ f.ok /\ f.int
    /\ IsFinite(v)
    /\ IF NumIsZero(v) \/ FieldIsZero(f) THEN NumIsZero(v) /\ FieldIsZero(f)
       ELSE /\ f.s = NumSign(v)
            /\ f.n <= 17
            /\ f.d \o Zeros(17 - f.n) = NumDigits(v)
            /\ f.e = NumExp(v)
(* the number string of a field of at most 17 digits *)
FieldNum(f) == IF FieldIsZero(f) THEN NumZero
               ELSE f.s \o SubSeq(f.d \o Zeros(17), 1, 17) \o ExpStr(f.e)
FieldNat(f) == IF FieldIsZero(f) THEN 0 ELSE DigitsToNat(SubSeq(f.d \o Zeros(17), 1, f.e + 1), 1, 0)

(* ------------------- number read back vs number written ------------------ *)
(* r is what a reader made of a correct p-digit rendering of v *)
SameNum(r, v, p) ==
    IF ~IsFinite(r) \/ ~IsFinite(v) THEN r = v
    ELSE IF NumIsZero(v) \/ NumIsZero(r) THEN NumIsZero(v) /\ NumIsZero(r)
    ELSE /\ NumSign(r) = NumSign(v)
         /\ IF p >= 17 THEN SubSeq(r, 2, 23) = SubSeq(v, 2, 23)
            ELSE (Roundings(NumDigits(r), NumExp(r), p) \cap Roundings(NumDigits(v), NumExp(v), p)) # {}
(* equal up to one unit of the p-th digit (for values computed by arithmetic) *)
CloseNum(r, v, p) ==
    IF ~IsFinite(r) \/ ~IsFinite(v) THEN r = v
    ELSE IF NumIsZero(v) \/ NumIsZero(r) THEN NumIsZero(v) /\ NumIsZero(r)
    ELSE /\ NumSign(r) = NumSign(v)
         /\ LET a == Down(NumDigits(r), NumExp(r), p) b == Down(NumDigits(v), NumExp(v), p)
            IN a = b \/ Up(NumDigits(r), NumExp(r), p) = b \/ a = Up(NumDigits(v), NumExp(v), p)

(* -------------------------------- rendering ------------------------------ *)
(* integer text of an integral number *)
IntText(v) == IF NumIsZero(v) THEN "0"
              ELSE (IF NumSign(v) = "-" THEN "-" ELSE "") \o SubSeq(NumDigits(v), 1, NumExp(v) + 1)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
ExpText(e, c) == c \o (IF e < 0 THEN "-" ELSE "+") \o Pad2(IF e < 0 THEN -e ELSE e)
(* "1.23457E+01": k digits, exponent letter c; style "1" = d.ddd, "0" = 0.dddd *)
RealText(v, k, c, style) ==
    LET z == NumIsZero(v)
        r == IF z THEN [d |-> Zeros(k), e |-> 0] ELSE CHOOSE x \in Roundings(NumDigits(v), NumExp(v), k) : TRUE
        sg == IF NumSign(v) = "-" THEN "-" ELSE ""
    IN IF style = "0" THEN sg \o "0." \o r.d \o ExpText(IF z THEN 0 ELSE r.e + 1, c)
       ELSE sg \o SubSeq(r.d, 1, 1) \o "." \o SubSeq(r.d, 2, k) \o ExpText(r.e, c)

(* ---------------------------------- hex ---------------------------------- *)
(* two hex digits per byte *)
ByteAt(h, i) == SubSeq(h, 2 * i - 1, 2 * i)
RECURSIVE RevBytes(_)
RevBytes(h) == IF h = "" THEN "" ELSE SubSeq(h, Len(h) - 1, Len(h)) \o RevBytes(SubSeq(h, 1, Len(h) - 2))
=============================================================================
