----------------------------- MODULE UffStoreGen ----------------------------
(* Prints every transition of UffStore's state graph; the harness covers the  *)
(* graph with walks and replays these on real files and objects.              *)
EXTENDS UffStore, TLC, Json
View == <<disk, objs>>
St(d, os) == [d |-> d, o |-> [k \in 1..Cardinality(Objs) |-> os[k]]]
Edge == PrintT("@@EDGE " \o ToJson([s |-> St(disk, objs), l |-> last', t |-> St(disk', objs')]))
=============================================================================
