------------------------------ MODULE Clients ------------------------------
(***************************************************************************)
(* Several clients in one process (C23).  Each has a packet identifier     *)
(* pool, a command queue, a notification channel and a read buffer of its  *)
(* own; their event loops take turns in any order.  Non-interference, by   *)
(* self-composition: beside every client c runs solo[c], the same client   *)
(* alone in a process, given c's stimuli and turns and nothing else.  They *)
(* have to agree in everything, always.  With Bug set, something is shared *)
(* that must not be, and they must not agree.                              *)
(*                                                                         *)
(* On the real clients: scenarios twin.N/k run several event loops in one  *)
(* process, each recorded by itself and judged by RuqTrace as if it were   *)
(* alone.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, IdMax, Steps, Bug

VARIABLES cl,     \* what the clients are
          solo,   \* what they would be alone
          shared, \* what a static variable would hold
          left
vars == <<cl, solo, shared, left>>

New == [used |-> {}, next |-> 1, cmds |-> <<>>, inq |-> <<>>, wrote |-> <<>>, notes |-> <<>>, part |-> 0, over |-> FALSE]
NoneShared == [used |-> {}, next |-> 1, part |-> 0, over |-> FALSE, notes |-> <<>>]

(* a client's view when some of its parts are shared *)
With(s, g) == CASE Bug = "pool" -> [s EXCEPT !.used = g.used, !.next = g.next]
                [] Bug = "buffer" -> [s EXCEPT !.part = g.part]
                [] Bug = "flag" -> [s EXCEPT !.over = g.over]
                [] Bug = "channel" -> [s EXCEPT !.notes = g.notes]
                [] OTHER -> s
Share(s) == [used |-> s.used, next |-> s.next, part |-> s.part, over |-> s.over, notes |-> s.notes]

Vacant(s) == {i \in 1..IdMax : i \notin s.used}
Pick(s) == LET up == {i \in Vacant(s) : i >= s.next} IN
           IF up # {} THEN CHOOSE i \in up : \A j \in up : i <= j
           ELSE CHOOSE i \in Vacant(s) : \A j \in Vacant(s) : i <= j

(* stimuli: an API call, half a packet, an acknowledgement, the end *)
Give(s, x) ==
  IF s.over THEN s
  ELSE CASE x = "cmd" -> [s EXCEPT !.cmds = Append(@, "pub")]
         [] OTHER -> [s EXCEPT !.inq = Append(@, x)]

(* one turn of the event loop: a packet if there is one, else a command *)
Turn(s) ==
  IF s.over THEN s
  ELSE IF s.inq # <<>>
    THEN LET x == Head(s.inq) r == [s EXCEPT !.inq = Tail(@)] IN
         CASE x = "half" -> IF s.part = 0 THEN [r EXCEPT !.part = 1]
                            ELSE [r EXCEPT !.part = 0, !.notes = Append(@, "msg")]
           [] x = "ack" -> IF s.used = {} THEN r
                           ELSE [r EXCEPT !.used = @ \ {CHOOSE i \in @ : \A j \in @ : i <= j}]
           [] x = "end" -> [r EXCEPT !.over = TRUE]
  ELSE IF s.cmds # <<>> /\ Vacant(s) # {}
    THEN LET i == Pick(s) IN
         [s EXCEPT !.cmds = Tail(@), !.used = @ \cup {i}, !.next = i + 1, !.wrote = Append(@, i)]
  ELSE s

Init == /\ cl = [c \in 1..N |-> New] /\ solo = cl /\ shared = NoneShared /\ left = Steps

Do(c, f(_)) ==
  LET a == f(With(cl[c], shared)) IN
  /\ cl' = [cl EXCEPT ![c] = a]
  /\ solo' = [solo EXCEPT ![c] = f(@)]
  /\ shared' = IF Bug = "none" THEN shared ELSE Share(a)
Gives(c, x) == left > 0 /\ left' = left - 1 /\ Do(c, LAMBDA s : Give(s, x))
Turns(c) == Do(c, Turn) /\ UNCHANGED left

Next == \E c \in 1..N : Turns(c) \/ \E x \in {"cmd", "half", "ack", "end"} : Gives(c, x)
Spec == Init /\ [][Next]_vars

Independent == \A c \in 1..N : With(cl[c], shared) = solo[c]
(* each in itself does what one expects of it *)
Sane == \A c \in 1..N : /\ Cardinality(cl[c].used) <= Len(cl[c].wrote)
                        /\ \A i \in 1..Len(cl[c].wrote) : cl[c].wrote[i] \in 1..IdMax
=============================================================================
