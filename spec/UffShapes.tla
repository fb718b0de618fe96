----------------------------- MODULE UffShapes ------------------------------
(* The shapes of data-sets: every combination of the choices that select a    *)
(* branch of a layout.  TLC enumerates them (one initial state per shape) and  *)
(* prints them; the harness fills each with values and replays it on the code. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Big == IOEnv.UFF_TIER = "thorough"
Want == IOEnv.UFF_TYPE                  \* a type or "all"
Up(a, b) == IF Big THEN b ELSE a

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Precision == [fd : {TRUE}, req : {0}] \cup [fd : {FALSE}, req : {2, 4, 5, 6}]
Shapes58 == {[t |-> "58", c |-> c, even |-> e, bin |-> b, fd |-> p.fd, req |-> p.req, n |-> n] :
             c \in BOOLEAN, e \in BOOLEAN, b \in BOOLEAN, p \in Precision, n \in 1..Up(7, 19)}
Shapes55 == {[t |-> "55", an |-> a, c |-> c, six |-> s, n |-> n] :
             a \in {2, 3, 5, 7}, c \in BOOLEAN, s \in BOOLEAN, n \in 0..Up(3, 8)}
Shapes2414 ==
    {[t |-> "2414", an |-> 5, loc |-> l, m |-> m, n |-> n, iexp |-> 0, nv |-> 0] : l \in {1, 2, 3}, m \in 1..3, n \in 0..Up(3, 8)}
    \cup {[t |-> "2414", an |-> a, loc |-> l, m |-> 3, n |-> n, iexp |-> 0, nv |-> v] :
          a \in {0, 1, 2, 4}, l \in {1, 2}, n \in 1..Up(3, 5), v \in 1..Up(7, 19)}
    \cup {[t |-> "2414", an |-> a, loc |-> 3, m |-> 3, n |-> n, iexp |-> x, nv |-> v] :
          a \in {1, 4}, n \in 1..Up(3, 5), x \in {1, 2}, v \in 1..7 \cup {9, 12, 13}}
    \cup {[t |-> "2414", an |-> 1, loc |-> 5, m |-> 3, n |-> 0, iexp |-> 0, nv |-> 0]}
ElemKinds == {<<11, 2>>, <<21, 2>>, <<22, 2>>, <<23, 3>>, <<24, 3>>, <<41, 3>>, <<44, 4>>, <<91, 3>>, <<94, 4>>, <<111, 4>>,
              <<115, 8>>, <<116, 20>>, <<118, 10>>, <<95, 8>>, <<45, 9>>, <<46, 16>>, <<47, 17>>}
Shapes2412 == {[t |-> "2412", el |-> s, legacy |-> FALSE] : s \in SeqsUpTo(ElemKinds, Up(2, 2))}
              \cup {[t |-> "2412", el |-> s, legacy |-> FALSE] :
                    s \in [1..3 -> {<<11, 2>>, <<41, 3>>, <<44, 4>>, <<116, 20>>}]}
              \cup {[t |-> "2412", el |-> s, legacy |-> TRUE] : s \in SeqsUpTo({<<41, 3>>, <<44, 4>>}, Up(3, 4)) \ {<<>>}}
              \* one descriptor with different numbers of nodes
              \cup {[t |-> "2412", el |-> s, legacy |-> FALSE] :
                    s \in [1..2 -> {<<41, 3>>, <<41, 6>>, <<44, 4>>, <<44, 8>>, <<44, 9>>, <<24, 2>>, <<24, 3>>, <<115, 8>>, <<115, 20>>}]}
              \cup {[t |-> "2412", el |-> s, legacy |-> TRUE] : s \in [1..2 -> {<<41, 3>>, <<41, 6>>, <<44, 4>>, <<44, 8>>}]}
ShapesGroup(t) == {[t |-> t, ent |-> s] : s \in SeqsUpTo(0..Up(5, 9), 2) \cup [1..3 -> {0, 1, 4}]}
Counts(t, a, b) == {[t |-> t, n |-> n] : n \in a..b}
ShapesOf(t) ==
    CASE t = "58" -> Shapes58
      [] t = "55" -> Shapes55
      [] t = "2414" -> Shapes2414
      [] t = "2412" -> Shapes2412
      [] t \in {"2429", "2467"} -> ShapesGroup(t)
      [] t = "15" -> Counts(t, 0, Up(6, 20))
      [] t = "2411" -> Counts(t, 0, Up(6, 20))
      [] t = "18" -> Counts(t, 1, Up(4, 12))
      [] t = "2420" -> Counts(t, 1, Up(4, 12))
      [] t = "82" -> Counts(t, 0, Up(18, 50))
      [] t \in {"151", "164", "1858", "2400"} -> Counts(t, 1, 1)
(* sizes far beyond those of one line or one record *)
LargeOf(t) ==
    CASE t = "58" -> {[t |-> "58", c |-> c, even |-> e, bin |-> b, fd |-> p.fd, req |-> p.req, n |-> n] :
                      c \in BOOLEAN, e \in BOOLEAN, b \in BOOLEAN, p \in [fd : {TRUE}, req : {0}] \cup [fd : {FALSE}, req : {5}],
                      n \in {30, 257, 1030} \cup Up({}, {2050, 5000})}
      [] t = "55" -> {[t |-> "55", an |-> a, c |-> c, six |-> s, n |-> n] : a \in {2, 3, 5, 7}, c \in BOOLEAN, s \in BOOLEAN, n \in {25} \cup Up({}, {300})}
      [] t = "2414" -> {[t |-> "2414", an |-> 5, loc |-> 1, m |-> m, n |-> n, iexp |-> 0, nv |-> 0] : m \in 1..3, n \in {40} \cup Up({}, {300})}
                       \cup {[t |-> "2414", an |-> 1, loc |-> l, m |-> 3, n |-> n, iexp |-> 1, nv |-> v] :
                            l \in 1..2, n \in {12} \cup Up({}, {100}), v \in {13, 36}}
                       \cup {[t |-> "2414", an |-> 1, loc |-> 3, m |-> 3, n |-> n, iexp |-> 1, nv |-> 6] : n \in {12} \cup Up({}, {100})}
      [] t = "2412" -> {[t |-> "2412", el |-> [k \in 1..n |-> e[1 + (k % Len(e))]], legacy |-> l] :
                        n \in {30} \cup Up({}, {150}), l \in BOOLEAN, e \in {<<<<44, 4>>>>, <<<<41, 3>>, <<44, 4>>>>}}
                       \cup {[t |-> "2412", el |-> [k \in 1..n |-> e[1 + (k % Len(e))]], legacy |-> FALSE] :
                        n \in {30} \cup Up({}, {150}), e \in {<<<<21, 2>>, <<44, 4>>, <<116, 20>>>>, <<<<24, 3>>>>, <<<<115, 8>>, <<111, 4>>>>}}
      [] t \in {"2429", "2467"} -> {[t |-> t, ent |-> s] : s \in {<<60>>, <<33, 0, 34>>, [k \in 1..20 |-> k % 7]} \cup Up({}, {<<500>>, [k \in 1..150 |-> k % 6]})}
      [] t \in {"15", "2411"} -> Counts(t, 60, 60) \cup Counts(t, 1100, Up(1100, 1103))
      [] t \in {"18", "2420"} -> Counts(t, 40, 40) \cup Up({}, Counts(t, 300, 300))
      [] t = "82" -> {[t |-> t, n |-> n] : n \in {63, 64, 65, 125, 126, 249, 250, 251, 256, 300, 1001} \cup Up({}, {2500})}
      [] OTHER -> {}
AllTypes == {"15", "18", "55", "58", "82", "151", "164", "1858", "2400", "2411", "2412", "2414", "2420", "2429", "2467"}

VARIABLE sh
Set == IOEnv.UFF_SET                    \* "usual" or "large"
Init == \E t \in (IF Want = "all" THEN AllTypes ELSE {Want}) : sh \in (IF Set = "large" THEN LargeOf(t) ELSE ShapesOf(t))
Next == FALSE /\ UNCHANGED sh
Spec == Init /\ [][Next]_sh
Emit == PrintT("@@SHAPE " \o ToJson(sh))
=============================================================================
