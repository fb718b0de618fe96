------------------------------ MODULE UffTrace ------------------------------
(* Validates traces recorded from the real code against the specification.   *)
(* A trace is a sequence of events of one universal file; every event moves   *)
(* the state of UffStore (same operators) and is judged: Fails(ev) is the set  *)
(* of the names of the clauses the event breaks.  The verdict is total: a      *)
(* broken clause is printed and the trace goes on with the state the           *)
(* specification demands.                                                      *)
(*                                                                           *)
(* Blocks are references <<event, item>> into the trace.                      *)
EXTENDS UffPrep, IOUtils, Json, FiniteSets

Traces == ndJsonDeserialize(IOEnv.UFF_TRACES)

VARIABLES tr, i, disk, objs, seen
vars == <<tr, i, disk, objs, seen>>
S == INSTANCE UffStore WITH Objs <- {}, Kinds <- {}, MaxBlocks <- 0, MaxItems <- 0, ReadIdx <- {}, last <- <<>>

Ev(t, k) == Traces[t].ev[k]

(* ----------------------------- items of a write -------------------------- *)
Cls(it, fd) ==
    LET d == it.d t == TypeOf(d)
    IN IF t = "none" THEN "bad"
       ELSE IF t \notin Supported THEN "skip"
       ELSE IF it.uw \/ Missing(d, fd) # {} \/ BadKind(d) THEN "bad" ELSE "ok"
Clocks(it) == IF "clock" \in DOMAIN it THEN it.clock ELSE <<<<"", "">>>>
Agrees(it, c) == \A k \in DOMAIN Defaults(it.d, c) :
                    k \in DOMAIN it.after => it.after[k] = (it.d @@ Defaults(it.d, c))[k]
Clock(it) == LET cs == Clocks(it)
                 ok == {j \in 1..Len(cs) : Agrees(it, cs[j])}
             IN IF Len(cs) = 1 \/ ok = {} THEN cs[1] ELSE cs[CHOOSE j \in ok : TRUE]
Full(it) == WithDefaults(it.d, Clock(it))

Dollar(k) == SubSeq(k, 1, 1) = "$"
(* the layout of what was written for the item *)
Tail58 == "202020202d310a"
RawLayout(it, fd) ==
    LET d == Full(it) t == TypeOf(d)
    IN IF t = "58" /\ Binary(d)
       THEN LET bad(bo) == BadRecs(it.raw.head, BlockRecords(d, fd, bo))
                            \cup (IF it.raw.hex = Payload(d, fd, bo = 1) \o Tail58 THEN {} ELSE {99})
            IN IF bad(1) = {} \/ bad(2) = {} THEN {} ELSE bad(1)
       ELSE IF "lines" \notin DOMAIN it.raw THEN {98}
       ELSE BadRecs(it.raw.lines, BlockRecords(d, fd, 1))
BadLayout(it, fd) == {"layout:" \o TypeOf(it.d) \o ":" \o ToString(k) : k \in RawLayout(it, fd)}
(* the caller's dictionary afterwards *)
BadAfter(it) ==
    LET d == Full(it) t == TypeOf(d)
        free(k) == k \in Computed(t) \/ Dollar(k)
        cplx(k) == t = "55" /\ k \in {"modal_a", "modal_b"}
    IN {"after:" \o k : k \in {k \in DOMAIN d : ~free(k) /\
            ~(k \in DOMAIN it.after /\ (it.after[k] = d[k]
                 \/ (cplx(k) /\ it.after[k][1] = "c" /\ SameNum(CRe(it.after[k]), CRe(d[k]), 17) /\ SameNum(CIm(it.after[k]), CIm(d[k]), 17))))}}
       \cup {"after+" \o k : k \in {k \in DOMAIN it.after : k \notin DOMAIN d /\ ~free(k)}}
BadAfterFailed(it) ==
    {"after:" \o k : k \in {k \in DOMAIN it.d : ~Dollar(k) /\ k \notin Computed(TypeOf(it.d)) /\ k # "groups"
        /\ ~(k \in DOMAIN it.after /\ (it.after[k] = it.d[k] \/ TypeOf(it.d) = "55"))}}

WriteFails(ev, dk, o) ==
    LET n == Len(ev.items)
        c == [k \in 1..n |-> [cls |-> Cls(ev.items[k], ev.fd), b |-> k]]
        g == S!GoodPrefix(c)
        raises == S!Raises(c) \/ ev.mode = "unknown"
        done == IF ev.mode = "unknown" THEN 0 ELSE g
    IN Bad((ev.err # "") = raises, "write:" \o (IF raises THEN "not refused" ELSE "raised"))
       \cup (IF done = 0
             THEN Bad(ev.post.ex = ev.pre.ex /\ ev.post.len = ev.pre.len /\ ev.post.sha = ev.pre.sha, "write:file changed")
             ELSE Bad(ev.post.ex, "write:no file")
                  \cup Bad(ev.new = ev.cats[done + 1], "write:content")
                  \cup Bad(ev.sep \in (IF ev.mode = "add" /\ ev.pre.open /\ ev.cats[done + 1][1] > 0 THEN {"\n", "\r\n", "\r"} ELSE {""}),
                           "write:content")
                  \cup (IF ev.mode = "add" /\ ev.pre.ex
                        THEN Bad(ev.post.len >= ev.pre.len /\ ev.post.psha = ev.pre.sha, "write:earlier bytes") ELSE {}))
       \cup UNION {IF k <= done /\ c[k].cls = "ok"
                   THEN BadLayout(ev.items[k], ev.fd) \cup BadAfter(ev.items[k])
                   ELSE BadAfterFailed(ev.items[k])
                   : k \in 1..n}
       \cup UNION {Bad(ev.items[k].mut = <<>>, "write:argument modified") : k \in 1..n}
       \cup (IF raises /\ done < n /\ ev.err # "" /\ ev.mode # "unknown"
             THEN LET it == ev.items[done + 1] d == it.d miss == Missing(d, ev.fd)
                  IN IF Cls(it, ev.fd) = "bad" /\ TypeOf(d) # "none" /\ miss # {} /\ ~it.uw /\ ~BadKind(d) /\ Names(TypeOf(d))
                     THEN Bad((\E k \in miss : HasSub(ev.err, "'" \o k \o "'", 1)) /\ HasSub(ev.err, "#" \o TypeOf(d), 1),
                              "write:message")
                     ELSE {}
             ELSE {})
WriteRefs(ev, k) == [j \in 1..Len(ev.items) |-> [cls |-> Cls(ev.items[j], ev.fd), b |-> <<k, j>>]]
WriteNext(ev, k, dk) == IF ev.mode = "unknown" THEN dk
                        ELSE LET r == S!WriteItems(dk, ev.mode = "overwrite", WriteRefs(ev, k))
                             IN [r EXCEPT !.ex = IF r.bl = <<>> THEN ev.post.ex ELSE TRUE]

(* ------------------------------ blocks ----------------------------------- *)
(* kind of block b of trace t *)
Item(t, b) == IF Ev(t, b[1]).op = "put" THEN Ev(t, b[1]).blocks[b[2]] ELSE Ev(t, b[1]).items[b[2]]
Foreign(t, b) == Ev(t, b[1]).op = "put"
BlkCls(t, b) == IF Foreign(t, b) THEN Item(t, b).cls ELSE "ok"
BlkFd(t, b) == IF Foreign(t, b) THEN Item(t, b).fd ELSE Ev(t, b[1]).fd
BlkType(t, b) == IF BlkCls(t, b) = "ok" THEN TypeOf(Item(t, b).d) ELSE Item(t, b).type
BlkFmt(t, b) == IF BlkCls(t, b) = "ok"
                THEN LET d == Item(t, b).d
                     IN IF TypeOf(d) = "58" /\ Has(d, "binary") /\ Binary(d) THEN "1" ELSE "0"
                ELSE Item(t, b).fmt
(* blocks with the same bytes have the same name *)
BlkName(t, b) == IF Foreign(t, b) /\ "key" \in DOMAIN Item(t, b) THEN Item(t, b).key ELSE ToString(b)
BlkData(t, b) == IF Foreign(t, b) THEN Item(t, b).d ELSE Full(Item(t, b))

(* ------------------------------- reading --------------------------------- *)
SetFails(t, b, rs, ho) ==
    CASE BlkCls(t, b) = "bad" -> {}
      [] BlkCls(t, b) = "unsup" -> Bad({k \in DOMAIN rs.r : ~Dollar(k)} = {"type"} /\ TypeOf(rs.r) = BlkType(t, b), "read:unsupported")
      [] OTHER -> {"read:" \o BlkType(t, b) \o ":" \o k : k \in BadRead(BlkData(t, b), BlkFd(t, b), rs.r, ho)}
                  \cup (IF "full" \in DOMAIN Item(t, b)
                        THEN Bad({k \in DOMAIN rs.r : ~Dollar(k)} = {x : x \in ToSet(Item(t, b).full)}, "read:fields") ELSE {})
Marks(t, idx, bl, ev) ==
    UNION {LET b == bl[idx[k]] rs == ev.sets[k]
               n == BlkName(t, b)
           IN {<<n, "h", rs.fph>>} \cup (IF ev.ho THEN {} ELSE {<<n, "f", rs.fpf>>})
           : k \in {k \in 1..MinOf(Len(idx), Len(ev.sets)) : BlkCls(t, bl[idx[k]]) # "bad"}}
ReadOf(ev, dk, o) == S!Lazy(o, dk)
ReadFails(t, ev, dk, o, sn) ==
    LET v == S!Lazy(o, dk)
        idx == S!Selected(ev.sel, Len(v.bl))
        refuse == ~dk.ex \/ idx = <<0>>
        unread == ~refuse /\ \E k \in 1..Len(idx) : BlkCls(t, v.bl[idx[k]]) = "bad"
    IN Bad(ev.post.sha = ev.pre.sha /\ ev.post.ex = ev.pre.ex, "read:file changed") \cup Bad(ev.arg, "read:argument modified") \cup
       IF S!Stale(o, dk) THEN (IF ~dk.ex THEN Bad(ev.err # "", "read:missing file") ELSE {})
       ELSE IF refuse THEN Bad(ev.err # "", "read:not refused")
       ELSE IF ev.err # "" THEN Bad(unread, "read:raised")
       ELSE Bad(Len(ev.sets) = Len(idx), "read:number of sets")
            \cup Bad(ev.bare = S!Bare(idx), "read:bare")
            \cup (IF Len(ev.sets) = Len(idx) THEN UNION {SetFails(t, v.bl[idx[k]], ev.sets[k], ev.ho) : k \in 1..Len(idx)} ELSE {})
            \cup Bad(\A m \in Marks(t, idx, v.bl, ev), x \in sn \cup Marks(t, idx, v.bl, ev) :
                        (m[1] = x[1] /\ m[2] = x[2]) => m[3] = x[3], "read:inconsistent")
ReadMarks(t, ev, dk, o) ==
    IF S!Stale(o, dk) \/ ev.err # "" \/ ~dk.ex THEN {}
    ELSE LET v == S!Lazy(o, dk) idx == S!Selected(ev.sel, Len(v.bl)) IN IF idx = <<0>> THEN {} ELSE Marks(t, idx, v.bl, ev)

(* -------------------------------- queries -------------------------------- *)
QueryFails(t, ev, dk, o) ==
    IF S!Stale(o, dk) THEN {}
    ELSE LET v == S!Lazy(o, dk)
         IN Bad(ev.err = "", "query:raised") \cup
            IF ev.err # "" THEN {} ELSE
            Bad(ev.st0 = o.st, "query:status before")
            \cup Bad(ev.st1 = v.st, "query:status")
            \cup Bad(ev.n = Len(v.bl), "query:number of sets")
            \cup Bad(Len(ev.types) = Len(v.bl) /\ \A k \in 1..Len(v.bl) : BlkType(t, v.bl[k]) \in {ev.types[k], "?"}, "query:types")
            \cup Bad(ev.fmts = [k \in 1..Len(v.bl) |-> BlkFmt(t, v.bl[k])], "query:formats")

(* ------------------------- reading and writing again --------------------- *)
(* r: what was read from generation 1, 2, ..; b: bytes of the generations *)
SameFails(ev) ==
    Bad(\A k \in 2..Len(ev.r) : ev.r[k] = ev.r[1], "again:read")
    \cup Bad(\A k \in 3..Len(ev.b) : ev.b[k] = ev.b[2], "again:bytes")

(* ------------------------------- conversion ------------------------------ *)
(* the outline of a quad: its four edges *)
Outline(q) == <<q[1], q[2], NumZero, q[2], q[3], NumZero, q[3], q[4], NumZero, q[4], q[1], NumZero>>
QuadRows(d) == Val(Val(d, "quad"), "nodes_nums")
WithQuads(ds) == SelectSeq([k \in 1..Len(ds) |-> k], LAMBDA k : TypeOf(ds[k]) = "2412" /\ Has(ds[k], "quad"))
ConvFails(ev) ==
    IF ev.err # "" THEN {"conv:raised"} ELSE
    LET w == WithQuads(ev.in)
        line(k) == Flat([q \in 1..Len(QuadRows(ev.in[k])) |-> Outline(QuadRows(ev.in[k])[q])])
    IN Bad(ev.same, "conv:input changed")
       \cup Bad(Len(ev.out) = Len(w), "conv:number")
       \cup (IF Len(ev.out) # Len(w) THEN {}
              ELSE UNION {LET o == ev.out[j] n == line(w[j])
                          IN Bad(TypeOf(o) = "82", "conv:type")
                             \cup Bad(Has(o, "nodes") /\ o["nodes"] = <<"N", n>>, "conv:nodes")
                             \cup Bad(Has(o, "n_nodes") /\ o["n_nodes"] = NV(Len(n)), "conv:n_nodes")
                             \cup Bad(Has(o, "trace_num") /\ o["trace_num"] = NV(w[j] - 1), "conv:trace_num")
                          : j \in 1..Len(w)})

(* --------------------------------- fix_58b ------------------------------- *)
(* want: bytes rendered by UffGen with the closing tags joined; the last tag of a file that ends with empty
   lines may also have stayed where it was *)
FixFails(ev) ==
    IF ~ev.there THEN Bad(ev.err # "", "fix:missing file") \cup Bad(~ev.made, "fix:file made")
    ELSE Bad(ev.err = "", "fix:raised")
         \cup Bad(ev.before = ev.after, "fix:original changed")
         \cup Bad(ev.names, "fix:name")
         \cup (IF ev.err # "" THEN {} ELSE Bad(ev.got \in ToSet(ev.want), "fix:bytes") \cup Bad(ev.again = ev.got, "fix:again"))

(* -------------------------- very large data-sets ------------------------- *)
(* judged in windows: each is the data-set restricted to some of its rows, with the lines and *)
(* what was read of these rows                                                                *)
HugeWriteFails(ev) ==
    Bad(ev.err = "", "write:raised") \cup Bad(ev.same, "write:argument modified")
    \cup (IF ev.mode = "add" /\ ev.pre.ex THEN Bad(ev.post.psha = ev.pre.sha, "write:earlier bytes") ELSE {})
    \cup (IF ev.err # "" THEN {} ELSE UNION {BadLayout(ev.items[k], ev.fd) : k \in 1..Len(ev.items)})
HugeReadFails(ev) ==
    Bad(ev.err = "", "read:raised") \cup
    (IF ev.err # "" THEN {} ELSE
     Bad(ev.bare, "read:bare")
     \cup {"read:length of " \o k : k \in {k \in DOMAIN ev.lens : ev.lens[k] # ev.total}}
     \cup UNION {{"read:" \o TypeOf(ev.items[k].d) \o ":" \o f : f \in BadRead(Full(ev.items[k]), ev.fd, ev.items[k].r, FALSE)}
                 : k \in 1..Len(ev.items)})

(* ----------------------- calls that make no sense ------------------------ *)
OddFails(ev) == Bad(ev.post.ex = ev.pre.ex /\ ev.post.sha = ev.pre.sha, ev.what \o ":file changed")
                \cup (IF ev.what = "write" THEN Bad(ev.err # "", "write:not refused") ELSE {})

(* ------------------------------ descriptions ----------------------------- *)
DocFails(ev) == IF ev.err # "" THEN {"about:raised"} ELSE
    Bad(HasSub(ev.raw, "Universal Dataset Number: " \o ev.fn \o "\n", 1), "about:structure")
    \cup Bad(ev.out = ev.raw \o "\n" /\ ~ev.ret, "about:structure printed")

(* ------------------------------ transitions ------------------------------ *)
Obj(os, o) == IF o \in DOMAIN os THEN os[o] ELSE S!NoObj
(* a call answers, and leaves no open file and no other file behind *)
Around(ev) ==
    (IF "err" \in DOMAIN ev THEN Bad(ev.err # "TIMEOUT", "no answer:" \o ev.op) ELSE {})
    \cup (IF "left" \in DOMAIN ev
          THEN Bad(ev.left = <<>>, "left:files:" \o ev.op) \cup Bad(ev.open = 0, "left:open:" \o ev.op) ELSE {})
(* what an object says about itself *)
AboutFails(ev, dk) ==
    Bad(ev.about.name, "about:file name") \cup Bad(ev.about.there = dk.ex, "about:file exists")
    \cup Bad(ToSet(ev.about.sup) = Supported \cup {"58b"} /\ Len(ev.about.sup) = Cardinality(Supported) + 1, "about:supported")
HugeRef(k) == <<[cls |-> "ok", b |-> <<k, 1>>]>>
(* ------------------------ samples of other programs ---------------------- *)
(* ev.d: what was read from a data-set of a sample file, ev.lines: its records.  Every field that is not
   blank denotes the value that was read (15 digits of it: 17 and more digits can name a neighbouring
   double); what stands behind the fields of a record, and in its unused fields, is free *)
LooseReal(f, v) ==
    \/ FieldIsReal(f, v, 1)
    \/ /\ f.ok /\ ~f.int /\ f.n > 15 /\ IsFinite(v) /\ ~NumIsZero(v) /\ ~FieldIsZero(f) /\ f.s = NumSign(v)
       /\ Roundings(f.d, f.e, 15) \cap Roundings(NumDigits(v), NumExp(v), 15) # {}
LooseField(f, t) ==
    IF f[1] = "X" THEN TRUE
    ELSE IF f[1] = "A" THEN Trim(t) = Trim(f[3])
    ELSE IF f[1] = "V" /\ f[3][1] # "n" THEN Trim(t) = Trim(f[3][2])
    ELSE LET v == IF f[1] = "V" THEN f[3][2] ELSE f[3]
             n == ParseNum(Trim(t))
         IN IF IsBlank(t) THEN NumIsZero(v) ELSE FieldIsInt(n, v) \/ (f[1] # "I" /\ LooseReal(n, v))
RECURSIVE LooseFrom(_, _, _, _)
LooseFrom(line, rec, j, c) ==
    \/ j > Len(rec)
    \/ /\ \/ LooseField(rec[j], Cols(line, c, c + rec[j][2] - 1))
          \/ Len(rec) = 1 /\ LooseField(rec[j], line)
       /\ LooseFrom(line, rec, j + 1, c + rec[j][2])
SampleFails(ev) ==
    IF ev.err # "" THEN {"read:raised"}
    ELSE LET d == WithDefaults(ev.d, <<"", "">>)
             all == Body(d, FALSE)
             recs == [j \in 1..Len(all) |-> IF TypeOf(d) = "1858" /\ j = 2 THEN SubSeq(all[j], 1, 9) ELSE all[j]]
             n == MinOf(Len(recs), Len(ev.lines))
         IN {"read:" \o TypeOf(d) \o ":record " \o ToString(j) : j \in {j \in 1..n : ~LooseFrom(ev.lines[j], recs[j], 1, 1)}}
            \cup Bad(Len(recs) <= Len(ev.lines) /\ \A j \in n + 1..Len(ev.lines) : IsBlank(ev.lines[j]), "read:records left over")

DiskNext(t, k, ev, dk) ==
    CASE ev.op = "write" -> WriteNext(ev, k, dk)
      [] ev.op = "hwrite" -> S!WriteItems(dk, ev.mode = "overwrite", HugeRef(k))
      [] ev.op = "put" -> [ex |-> TRUE, bl |-> [j \in 1..Len(ev.blocks) |-> <<k, j>>]]
      [] ev.op = "del" -> S!NoFile
      [] OTHER -> dk
ObjNext(t, k, ev, dk, o) ==
    CASE ev.op \in {"new", "refresh"} -> S!Look(dk)
      [] ev.op = "query" -> S!Lazy(o, dk)
      [] ev.op \in {"read", "hread"} -> IF dk.ex THEN S!Lazy(o, dk) ELSE o
      [] ev.op = "hwrite" -> S!AfterWrite(o, DiskNext(t, k, ev, dk), HugeRef(k))
      [] ev.op = "write" -> IF ev.mode = "unknown" THEN o ELSE S!AfterWrite(o, WriteNext(ev, k, dk), WriteRefs(ev, k))
      [] OTHER -> o
(* what the object says about being refreshed, right after the call *)
StatusFails(t, k, ev, dk, o) ==
    IF "st" \notin DOMAIN ev \/ (ev.op \in {"read", "write"} /\ S!Stale(o, dk)) \/ (ev.op = "new" /\ ev.err # "") THEN {}
    ELSE Bad(ev.st = ObjNext(t, k, ev, dk, o).st, ev.op \o ":status")
Fails(t, k, ev, dk, os, sn) == Around(ev) \cup (IF "o" \in DOMAIN ev THEN StatusFails(t, k, ev, dk, Obj(os, ev.o)) ELSE {}) \cup
    CASE ev.op = "new" -> Bad(ev.err = "", "new:raised")
      [] ev.op = "refresh" -> Bad(ev.err = "", "refresh:raised") \cup Bad(ev.err # "" \/ ev.ret = dk.ex, "refresh:result")
      [] ev.op = "query" -> QueryFails(t, ev, dk, Obj(os, ev.o)) \cup AboutFails(ev, dk)
      [] ev.op = "write" -> WriteFails(ev, dk, Obj(os, ev.o))
      [] ev.op = "read" -> ReadFails(t, ev, dk, Obj(os, ev.o), sn)
      [] ev.op = "same" -> SameFails(ev)
      [] ev.op = "conv" -> ConvFails(ev)
      [] ev.op = "fix" -> FixFails(ev)
      [] ev.op = "doc" -> DocFails(ev)
      [] ev.op = "sample" -> SampleFails(ev)
      [] ev.op = "prep" -> PrepFails(ev)
      [] ev.op = "odd" -> OddFails(ev)
      [] ev.op = "hwrite" -> HugeWriteFails(ev)
      [] ev.op = "hread" -> HugeReadFails(ev)
      [] ev.op \in {"put", "del"} -> {}
Init == tr \in 1..Len(Traces) /\ i = 1 /\ disk = S!NoFile /\ objs = [o \in {} |-> S!NoObj] /\ seen = {}
Next == /\ i <= Len(Traces[tr].ev)
        /\ LET ev == Ev(tr, i)
               fails == Fails(tr, i, ev, disk, objs, seen)
           IN /\ IF fails = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([t |-> Traces[tr].id, i |-> i, f |-> fails]))
              /\ disk' = DiskNext(tr, i, ev, disk)
              /\ objs' = IF "o" \in DOMAIN ev
                         THEN (ev.o :> ObjNext(tr, i, ev, disk, Obj(objs, ev.o))) @@ objs ELSE objs
              /\ seen' = IF ev.op = "read" THEN seen \cup ReadMarks(tr, ev, disk, Obj(objs, ev.o)) ELSE seen
        /\ i' = i + 1 /\ UNCHANGED tr
        /\ IF i < Len(Traces[tr].ev) THEN TRUE ELSE PrintT("@@DONE " \o ToJson([t |-> Traces[tr].id, n |-> i]))
Spec == Init /\ [][Next]_vars
=============================================================================
