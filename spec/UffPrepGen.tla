---------------------------- MODULE UffPrepGen ------------------------------
(* Enumerates the calls of the prepare_* functions: every argument with every *)
(* class of values, alone and together with all the others.  For an           *)
(* enumeration every member and its neighbours.                               *)
EXTENDS UffPrep, Json, IOUtils

Big == IOEnv.UFF_TIER = "thorough"
Withs == IF Big THEN {"alone", "all", "random"} ELSE {"any"}

Probe(a) == IF a[2] \in {"enum", "enums"} THEN UNION {{n - 1, n, n + 1} : n \in a[3] \cup a[4]} \cup {-1, 99} ELSE {0}
(* classes a function can be called with for argument a; the value matters only for enumerations *)
Cases(fn, i) ==
    LET a == Args(fn)[i]
        some == {[c |-> c, v |-> v] : c \in Classes, v \in Probe(a)}
        one(x) == IF a[2] \in {"enum", "enums"} /\ ~(IsInt(x.c)) THEN x.v = 0 ELSE TRUE
        ok(x) == /\ one(x)
                 /\ (a[2] = "enum" => x.c \notin {"mask", "amask", "neg", "noints", "noflts"})
                 /\ (a[2] = "enums" => x.c \notin {"mask", "amask", "neg", "noints", "noflts"})
    IN {[fn |-> fn, arg |-> a[1], c |-> x.c, v |-> x.v, with |-> w, full |-> f] :
        x \in {x \in some : ok(x)}, w \in Withs, f \in BOOLEAN}
AllCases == UNION {UNION {Cases(fn, i) : i \in 1..Len(Args(fn))} : fn \in Fns}
        \cup {[fn |-> fn, arg |-> "", c |-> "", v |-> 0, with |-> w, full |-> f] : fn \in Fns, w \in {"none", "all", "random", "without"}, f \in BOOLEAN}
Signature(fn) == [fn |-> fn, must |-> MustGive(fn), args |-> [i \in 1..Len(Args(fn)) |->
                    [name |-> Args(fn)[i][1], kind |-> Args(fn)[i][2], members |-> Args(fn)[i][3]]]]
VARIABLE k
Init == k \in AllCases
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
Emit == PrintT("@@CALL " \o ToJson(k))
ASSUME \A fn \in Fns : PrintT("@@SIG " \o ToJson(Signature(fn)))
ASSUME \A fn \in Fns : \A i, j \in 1..Len(Args(fn)) : i # j => Args(fn)[i][1] # Args(fn)[j][1]
=============================================================================
