------------------------------- MODULE PktIds -------------------------------
(***************************************************************************)
(* The packet identifier allocator (src/pktids.rs): vacant identifiers are *)
(* a linked list of ranges in a vector, slot 0 being the end of the list.  *)
(* Abstractly it is a set: Refines says that the list is sorted, its       *)
(* ranges are disjoint, and together they are exactly the identifiers not  *)
(* in use, whatever is requested and returned in whatever order, so that   *)
(* what EventLoop.tla says about the set `used` holds of the list.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Max, Bug   \* "none", "foreign", "last", "tail", "noprev"

VARIABLES ranges, start, used, got
vars == <<ranges, start, used, got>>

Vacant == [t |-> FALSE, lo |-> 0, hi |-> 0, nx |-> 0]
Taken(lo, hi, nx) == [t |-> TRUE, lo |-> lo, hi |-> hi, nx |-> nx]
At(i) == IF i \in 1..Len(ranges) THEN ranges[i] ELSE Vacant

Init == /\ ranges = <<Taken(1, Max, 0)>> /\ start = 1 /\ used = {} /\ got = 0

HasVacant == At(start).t

NextId ==
  /\ HasVacant
  /\ LET n == At(start) IN
     /\ got' = n.lo /\ used' = used \cup {n.lo}
     /\ IF n.lo >= n.hi
          THEN /\ ranges' = [ranges EXCEPT ![start] = Vacant]
               /\ start' = IF Bug = "last" /\ n.nx = 0 THEN start ELSE n.nx
          ELSE ranges' = [ranges EXCEPT ![start].lo = @ + 1] /\ UNCHANGED start

(* the range before id, and the one after it; 0: none.  held: id is vacant *)
RECURSIVE Walk(_, _, _)
Walk(prev, next, id) ==
  LET n == At(next) IN
  IF ~n.t THEN [prev |-> prev, next |-> next, held |-> FALSE]
  ELSE IF n.lo <= id /\ id <= n.hi /\ Bug # "foreign" THEN [prev |-> prev, next |-> next, held |-> TRUE]
  ELSE IF n.lo > id THEN [prev |-> prev, next |-> next, held |-> FALSE]
  ELSE Walk(next, n.nx, id)

FreeSlot(r) == IF \E i \in 1..Len(r) : ~r[i].t
                 THEN CHOOSE i \in 1..Len(r) : ~r[i].t /\ \A j \in 1..(i - 1) : r[j].t
                 ELSE Len(r) + 1
Put(r, i, n) == IF i > Len(r) THEN Append(r, n) ELSE [r EXCEPT ![i] = n]

ReturnId(id) ==
  /\ used' = used \ {id} /\ UNCHANGED got
  /\ LET w == Walk(0, start, id)
         grow == At(w.next).t /\ At(w.next).lo - 1 = id
         slot == FreeSlot(ranges) IN
     IF w.held THEN UNCHANGED <<ranges, start>>
     ELSE IF w.prev # 0 /\ At(w.prev).hi + 1 = id
       THEN ranges' = [ranges EXCEPT ![w.prev].hi = id] /\ UNCHANGED start
     ELSE IF grow
       THEN ranges' = [ranges EXCEPT ![w.next].lo = id] /\ UNCHANGED start
     ELSE IF w.prev = 0
       THEN /\ ranges' = Put(ranges, slot, Taken(id, id, IF Bug = "tail" THEN 0 ELSE start))
            /\ start' = slot
     ELSE /\ LET r == Put(ranges, slot, Taken(id, id, w.next)) IN
             ranges' = IF Bug = "noprev" THEN r ELSE [r EXCEPT ![w.prev].nx = slot]
          /\ UNCHANGED start

(* any identifier may be returned, in use or not *)
Next == NextId \/ \E id \in 1..Max : ReturnId(id)
Spec == Init /\ [][Next]_vars

RECURSIVE List(_, _)
List(i, k) == IF ~At(i).t \/ k = 0 THEN <<>> ELSE <<At(i)>> \o List(At(i).nx, k - 1)
TheList == List(start, Max + 2)
Refines ==
  /\ \A i \in 1..Len(TheList) : TheList[i].lo <= TheList[i].hi
  /\ \A i \in 1..(Len(TheList) - 1) : TheList[i].hi < TheList[i + 1].lo
  /\ UNION {TheList[i].lo .. TheList[i].hi : i \in 1..Len(TheList)} = (1..Max) \ used
  /\ HasVacant <=> used # 1..Max
(* an identifier handed out was vacant and is not zero *)
Fresh == [][used' # used /\ used \subseteq used' => got' \notin used /\ got' \in 1..Max]_vars
(* the vector does not grow for ever *)
Bounded == Len(ranges) <= Max
View == <<ranges, start, used>>
=============================================================================
