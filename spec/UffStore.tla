------------------------------ MODULE UffStore ------------------------------
(* A universal file on disk and the UFF objects that work with it.           *)
(*                                                                           *)
(* disk   [ex: does the file exist, bl: its blocks in order]                 *)
(* objs   per object "none", or [st: refresh status, bl: blocks it knows]    *)
(*                                                                           *)
(* Items of a write call are [cls, b]: "ok" (block b is written), "skip"     *)
(* (unsupported type, writes nothing) or "bad" (raises).                     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

NoFile == [ex |-> FALSE, bl |-> <<>>]
NoObj == [st |-> FALSE, bl |-> <<>>]

(* what refresh() makes of the file *)
Look(dk) == [st |-> dk.ex, bl |-> dk.bl]
(* an object that has not looked yet does so on a query or read *)
Lazy(o, dk) == IF o.st THEN o ELSE Look(dk)
(* the file was changed by others since the object looked *)
Stale(o, dk) == o.st /\ o # Look(dk)

(* one item; overwrite: this item replaces the content *)
WriteItem(dk, over, it) ==
    CASE it.cls = "ok" -> [ex |-> TRUE, bl |-> (IF over THEN <<>> ELSE dk.bl) \o <<it.b>>]
      [] it.cls = "skip" -> [ex |-> TRUE, bl |-> IF over THEN <<>> ELSE dk.bl]
      [] it.cls = "bad" -> dk
(* number of items processed before the first bad one *)
RECURSIVE GoodPrefix(_)
GoodPrefix(items) == IF items = <<>> \/ Head(items).cls = "bad" THEN 0 ELSE 1 + GoodPrefix(Tail(items))
RECURSIVE WriteItems(_, _, _)
WriteItems(dk, over, items) ==
    IF items = <<>> \/ Head(items).cls = "bad" THEN dk
    ELSE WriteItems(WriteItem(dk, over, Head(items)), FALSE, Tail(items))
Raises(items) == items = <<>> \/ GoodPrefix(items) < Len(items)
(* the object looks at the file after each data-set it has written *)
AfterWrite(o, dk, items) == IF GoodPrefix(items) = 0 THEN o ELSE Look(dk)

(* indices (1..n) a selection reads; <<0>> if it must be refused *)
Selected(sel, n) ==
    CASE sel.k = "all" -> [i \in 1..n |-> i]
      [] OTHER -> IF \A i \in 1..Len(sel.ix) : sel.ix[i] \in 0..(n - 1)
                  THEN [i \in 1..Len(sel.ix) |-> sel.ix[i] + 1] ELSE <<0>>
Bare(idx) == Len(idx) = 1

-----------------------------------------------------------------------------
CONSTANTS Objs, Kinds, MaxBlocks, MaxItems, ReadIdx
VARIABLES disk, objs, last
vars == <<disk, objs, last>>

Items == [cls : {"ok"}, b : Kinds] \cup {[cls |-> "skip", b |-> "-"], [cls |-> "bad", b |-> "-"]}
ItemLists == UNION {[1..n -> Items] : n \in 0..MaxItems}

Init == disk = NoFile /\ objs = [o \in Objs |-> NoObj] /\ last = [op |-> "init"]

New(o) == /\ objs' = [objs EXCEPT ![o] = Look(disk)] /\ UNCHANGED disk
          /\ last' = [op |-> "new", o |-> o]
Refresh(o) == /\ objs' = [objs EXCEPT ![o] = Look(disk)] /\ UNCHANGED disk
              /\ last' = [op |-> "refresh", o |-> o]
Query(o) == /\ objs' = [objs EXCEPT ![o] = Lazy(@, disk)] /\ UNCHANGED disk
            /\ last' = [op |-> "query", o |-> o]
Write(o, over, items) ==
    /\ disk' = WriteItems(disk, over, items)
    /\ Len(disk'.bl) <= MaxBlocks
    /\ objs' = [objs EXCEPT ![o] = AfterWrite(@, disk', items)]
    /\ last' = [op |-> "write", o |-> o, over |-> over, items |-> items]
(* a mode that does not exist is refused, whatever is to be written *)
WriteUnknown(o, items) == UNCHANGED <<disk, objs>> /\ last' = [op |-> "unknown", o |-> o, items |-> items]
Read(o, sel) ==
    /\ disk.ex /\ objs' = [objs EXCEPT ![o] = Lazy(@, disk)] /\ UNCHANGED disk
    /\ last' = [op |-> "read", o |-> o, sel |-> sel]
ReadMissing(o) == /\ ~disk.ex /\ UNCHANGED <<disk, objs>> /\ last' = [op |-> "read", o |-> o, sel |-> [k |-> "all", ix |-> <<>>]]
ExtPut(bl) == disk' = [ex |-> TRUE, bl |-> bl] /\ UNCHANGED objs /\ last' = [op |-> "put", bl |-> bl]
ExtDel == disk.ex /\ disk' = NoFile /\ UNCHANGED objs /\ last' = [op |-> "del"]

Sels == {[k |-> "all", ix |-> <<>>]} \cup {[k |-> "one", ix |-> <<i>>] : i \in ReadIdx}
        \cup {[k |-> "list", ix |-> <<i, j>>] : i, j \in ReadIdx}
Next == \/ \E o \in Objs : \/ New(o) \/ Refresh(o) \/ Query(o) \/ ReadMissing(o)
                           \/ \E over \in BOOLEAN, items \in ItemLists : Write(o, over, items)
                           \/ \E items \in {l \in ItemLists : Len(l) <= 1} : WriteUnknown(o, items)
                           \/ \E sel \in Sels : Read(o, sel)
        \/ \E n \in 0..MaxBlocks : \E bl \in [1..n -> Kinds] : n <= 1 /\ ExtPut(bl)
        \/ ExtDel
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == /\ disk.ex \in BOOLEAN /\ Len(disk.bl) <= MaxBlocks
          /\ (~disk.ex => disk.bl = <<>>)
          /\ \A o \in Objs : ~objs[o].st => objs[o].bl = <<>>
(* P02: add keeps what is there; overwrite leaves only the new blocks, in order *)
OkBlocks(items) == LET g == SubSeq(items, 1, GoodPrefix(items))
                       w == SelectSeq(g, LAMBDA it : it.cls = "ok")
                   IN [i \in 1..Len(w) |-> w[i].b]
WriteStep == last'.op = "write" =>
    IF GoodPrefix(last'.items) = 0 THEN disk' = disk                      \* P05
    ELSE disk'.bl = (IF last'.over THEN <<>> ELSE disk.bl) \o OkBlocks(last'.items)
Writes == [][WriteStep]_vars
(* P02: writing a list equals writing its members one after another *)
OneByOneStep == last'.op = "write" /\ Len(last'.items) > 1 =>
    disk' = WriteItems(WriteItem(disk, last'.over, Head(last'.items)), FALSE,
                       IF Head(last'.items).cls = "bad" THEN <<>> ELSE Tail(last'.items))
OneByOne == [][OneByOneStep]_vars
(* P03: after its own write (that wrote) or refresh an object describes the file *)
OwnView == \A o \in Objs :
    /\ (last.op \in {"new", "refresh"} /\ last.o = o) => objs[o] = Look(disk)
    /\ (last.op = "write" /\ last.o = o /\ GoodPrefix(last.items) > 0) => objs[o] = Look(disk)
(* P03: an object that never saw the file picks it up on its first query *)
PickUp == last.op = "query" /\ disk.ex => objs[last.o].st
(* P04: reading changes neither the file nor what a fresh object reports *)
ReadPure == [][last'.op \in {"read", "query"} =>
               disk' = disk /\ \A o \in Objs : objs[o].st => objs'[o] = objs[o]]_vars
(* only the acting object changes its view *)
Others == [][\A o \in Objs : objs'[o] # objs[o] => "o" \in DOMAIN last' /\ last'.o = o]_vars
=============================================================================
