------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* From bytes to packets (src/mqtt_codec.rs): the decoder looks at what    *)
(* has arrived so far, whatever the pieces it arrived in, and takes one    *)
(* complete packet off the front, waits, or fails.  Confluence says that   *)
(* the packets and the failure depend on the bytes only (C11): at every    *)
(* moment the result is a prefix of Parse(stream), and the whole of it     *)
(* once everything has arrived.  EventLoop.tla takes whole packets from    *)
(* its input queue; this module justifies that.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Bytes,   \* the alphabet, e.g. {0, 1, 2, 128, 129}
          MaxLen,  \* length of the streams
          Bug      \* "none", "eager", "greedy", "short", "skip"

VARIABLES stream, pos, buf, out, st    \* st: open, failed, ended
vars == <<stream, pos, buf, out, st>>

Streams == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Kinds == {32, 48, 64, 208}             \* first bytes that may begin a packet
GoodFirst(b) == b \in Kinds
Need(s) == IF Bug = "short" THEN 1 ELSE 2

(* the length field: [k |-> "more" | "bad" | "len", n, size] *)
RECURSIVE VbiAt(_, _, _, _)
VbiAt(s, i, mul, acc) ==
  IF i > 4 THEN [k |-> "bad", n |-> 0, size |-> 0]
  ELSE IF Len(s) < i + 1 THEN [k |-> "more", n |-> 0, size |-> 0]
  ELSE LET b == s[i + 1] v == acc + (b % 128) * mul IN
    IF b < 128 THEN [k |-> "len", n |-> v, size |-> i]
    ELSE VbiAt(s, i + 1, mul * 128, v)

(* one step of the decoder on what is in the buffer *)
Step(s) ==
  IF Len(s) < 2 THEN [k |-> "more", n |-> 0]
  ELSE IF ~GoodFirst(s[1]) THEN [k |-> "bad", n |-> 0]
  ELSE LET l == VbiAt(s, 1, 1, 0) IN
    IF l.k # "len" THEN [k |-> l.k, n |-> 0]
    ELSE IF Len(s) < 1 + l.size + l.n THEN [k |-> "more", n |-> 0]
    ELSE [k |-> "pkt", n |-> 1 + l.size + l.n]

RECURSIVE Parse(_)
Parse(s) ==
  LET d == Step(s) IN
  CASE d.k = "more" -> [out |-> <<>>, st |-> "open"]
    [] d.k = "bad" -> [out |-> <<>>, st |-> "failed"]
    [] d.k = "pkt" -> LET r == Parse(SubSeq(s, d.n + 1, Len(s))) IN
                      [out |-> <<SubSeq(s, 1, d.n)>> \o r.out, st |-> r.st]

Init == /\ stream \in Streams /\ pos = 0 /\ buf = <<>> /\ out = <<>> /\ st = "open"

(* a read delivers any number of the bytes still to come *)
Deliver == /\ st = "open" /\ pos < Len(stream)
           /\ \E n \in 1..(Len(stream) - pos) :
                /\ pos' = pos + n
                /\ buf' = buf \o SubSeq(stream, pos + 1, pos + n)
           /\ UNCHANGED <<stream, out, st>>

Decode ==
  /\ st = "open" /\ UNCHANGED <<stream, pos>>
  /\ LET d == Step(buf) IN
     CASE d.k = "pkt" ->
            /\ out' = Append(out, SubSeq(buf, 1, d.n)) /\ UNCHANGED st
            /\ buf' = IF Bug = "greedy" THEN <<>> ELSE SubSeq(buf, d.n + 1, Len(buf))
       [] d.k = "bad" -> st' = "failed" /\ UNCHANGED <<buf, out>>
       [] d.k = "more" ->
            /\ UNCHANGED out
            /\ \/ Bug = "eager" /\ Len(buf) = 3 /\ st' = "failed" /\ UNCHANGED buf
               \/ Bug = "skip" /\ Len(buf) = 2 /\ buf' = Tail(buf) /\ UNCHANGED st

Next == Deliver \/ Decode
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Resting == pos = Len(stream) /\ (st = "failed" \/ Step(buf).k = "more")
Confluence ==
  LET p == Parse(stream) IN
  /\ IsPrefix(out, p.out)
  /\ st = "failed" => p.st = "failed" /\ out = p.out
  /\ Resting => st = p.st /\ out = p.out
(* every byte is in a packet or in the buffer *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
NoByteLost == Flat(out) \o buf = SubSeq(stream, 1, pos)
Rests == <>(Resting \/ st = "failed")
=============================================================================
