------------------------------- MODULE RuqObs -------------------------------
(***************************************************************************)
(* What an observer of one connection demands.  The observer sees what     *)
(* crosses the client's boundary: API calls and their results, the bytes   *)
(* the broker sends and how it ends the stream, the packets the client     *)
(* writes, the notifications it delivers, the event loop's result, time,   *)
(* and quiescence (Settle: nothing is in flight and the client is idle).   *)
(*                                                                         *)
(* Obs(m, e) is the deterministic step function of the observer; m.viol    *)
(* collects <<property, reason>>.  The module states the properties        *)
(* C01..C19, C21 and C22 of properties.jsonl; the same text is checked as an invariant  *)
(* of the implementation model (Session.tla) and evaluated on traces of    *)
(* the real client (RuqTrace.tla).  Reasons starting with "missing" say    *)
(* that something had not happened when the client was idle.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, MqttWire

CONSTANTS Cap,      \* commands that may wait before a call is refused
          NCap,     \* notifications the loop can run ahead of the consumer
          MaxId,    \* largest packet identifier
          Slack,    \* tolerance of the timing properties
          Room      \* memory (KB) a client may hold with nothing to do
-----------------------------------------------------------------------------
(* sets of identifiers as sorted sequences of disjoint intervals *)
InIv(iv, x) == \E i \in 1..Len(iv) : iv[i][1] <= x /\ x <= iv[i][2]
Meets(iv, lo, hi) == \E i \in 1..Len(iv) : iv[i][1] <= hi /\ lo <= iv[i][2]
RECURSIVE AddIv(_, _, _)
AddIv(iv, lo, hi) ==
  IF iv = <<>> THEN <<<<lo, hi>>>>
  ELSE LET h == Head(iv) IN
    IF hi < h[1] - 1 THEN <<<<lo, hi>>>> \o iv
    ELSE IF h[2] < lo - 1 THEN <<h>> \o AddIv(Tail(iv), lo, hi)
    ELSE AddIv(Tail(iv), IF lo < h[1] THEN lo ELSE h[1], IF hi > h[2] THEN hi ELSE h[2])
RECURSIVE RemIv(_, _, _)
RemIv(iv, lo, hi) ==
  IF iv = <<>> THEN <<>>
  ELSE LET h == Head(iv)
           a == IF h[1] < lo THEN <<<<h[1], IF h[2] < lo THEN h[2] ELSE lo - 1>>>> ELSE <<>>
           z == IF h[2] > hi THEN <<<<IF h[1] > hi THEN h[1] ELSE hi + 1, h[2]>>>> ELSE <<>>
       IN a \o z \o (IF h[1] > hi THEN Tail(iv) ELSE RemIv(Tail(iv), lo, hi))
RECURSIVE IvSize(_)
IvSize(iv) == IF iv = <<>> THEN 0 ELSE Head(iv)[2] - Head(iv)[1] + 1 + IvSize(Tail(iv))
RECURSIVE AddAll(_, _)
AddAll(iv, rs) == IF rs = <<>> THEN iv ELSE AddAll(AddIv(iv, Head(rs)[1], Head(rs)[2]), Tail(rs))
RECURSIVE RemAll(_, _)
RemAll(iv, rs) == IF rs = <<>> THEN iv ELSE RemAll(RemIv(iv, Head(rs)[1], Head(rs)[2]), Tail(rs))
-----------------------------------------------------------------------------
(* commands *)
MaxU16 == 65535
NoPfi(ps) == SelectSeq(ps, LAMBDA p : p.k # "pfi")
CmdOf(e) == [k |-> e.k, topic |-> e.topic, pl |-> e.pl, txt |-> e.txt, qos |-> e.qos, props |-> e.props]
PropsLen(c) == RLen(EncPropList(<<PfiOf(c)>> \o c.props))
LongProp(c) == \E i \in 1..Len(c.props) :
                 c.props[i].k \in {"rt", "cd", "up"} /\
                 (RLen(c.props[i].a) > MaxU16 \/ RLen(c.props[i].b) > MaxU16)
(* the whole packet's remaining length; only asked when no part is too long *)
PubLen(c) == LET n == PropsLen(c) IN
  2 + RLen(c.topic) + (IF c.qos > 0 THEN 2 ELSE 0) + n + RLen(Vbi(n)) + RLen(c.pl)
Unrep(c) ==
  /\ c.k # "disc"
  /\ \/ RLen(c.topic) > MaxU16
     \/ /\ c.k = "pub"
        /\ (RLen(c.pl) > VbiMax \/ LongProp(c) \/ PubLen(c) > VbiMax)
Big(c) == \/ RLen(c.topic) > 60000 \/ RLen(c.pl) > 60000
          \/ \E i \in 1..Len(c.props) : RLen(c.props[i].a) > 60000 \/ RLen(c.props[i].b) > 60000

Pfis(ps) == SelectSeq(ps, LAMBDA p : p.k = "pfi")
(* does the packet d the client wrote say what the command c asked for *)
Says(d, c) ==
  CASE c.k = "pub" ->
         /\ d.ty = 3 /\ d.qos = c.qos /\ ~d.dup /\ ~d.retain
         /\ d.topic = c.topic /\ d.pl = c.pl
         /\ NoPfi(d.props) = NoPfi(c.props)
         /\ Len(Pfis(d.props)) <= 1 + Len(Pfis(c.props))
         /\ LET x == Pfis(d.props) IN
              IF x = <<>> THEN ~c.txt
              ELSE x[1].a = <<<<IF c.txt THEN 1 ELSE 0, 1>>>>
    [] c.k = "sub" -> d.ty = 8 /\ d.topic = c.topic /\ d.qos = c.qos /\ d.plain
    [] c.k = "unsub" -> d.ty = 10 /\ d.topic = c.topic
    [] OTHER -> FALSE
KindOf(ty) == CASE ty = 3 -> "pub" [] ty = 8 -> "sub" [] ty = 10 -> "unsub" [] ty = 14 -> "disc" [] OTHER -> "none"

(* the command queue: <<[c |-> command, n |-> how many of it]>> *)
PushCmd(q, c, n) ==
  IF n = 0 THEN q
  ELSE IF q # <<>> /\ q[Len(q)].c = c
    THEN [q EXCEPT ![Len(q)].n = @ + n]
    ELSE Append(q, [c |-> c, n |-> n])
PopCmd(q, n) == IF Head(q).n = n THEN Tail(q) ELSE <<[Head(q) EXCEPT !.n = @ - n]>> \o Tail(q)
RECURSIVE QLen(_)
QLen(q) == IF q = <<>> THEN 0 ELSE Head(q).n + QLen(Tail(q))
FloodCmd(qos) == [k |-> "pub", topic |-> <<<<102, 1>>>>, pl |-> <<<<120, 1>>>>, txt |-> FALSE,
                  qos |-> qos, props |-> <<>>]
-----------------------------------------------------------------------------
NoCmd == [k |-> "none", topic |-> <<>>, pl |-> <<>>, txt |-> FALSE, qos |-> 0, props |-> <<>>]

Fresh(id, refused, grp) ==
  [id |-> id, grp |-> grp, refused |-> refused, t |-> 0,
   acc |-> FALSE, conn |-> FALSE, ka |-> 0,
   drive |-> TRUE,                \* the event loop was polled
   hs |-> "wait",                 \* wait, live, fail
   lastPing |-> 0,                \* time of the last PINGREQ, or of CONNACK
   unans |-> -1,                  \* time of the unanswered PINGREQ
   pend |-> -1,                   \* the same, answered since the last Settle
   prep |-> FALSE,                \* a PINGRESP nobody asked for, since the last Settle
   fuzzy |-> FALSE,               \* timing no longer judged
   cmds |-> <<>>, last |-> NoCmd,
   udisc |-> FALSE,               \* DISCONNECT was written
   infl |-> <<>>, exh |-> FALSE,  \* identifiers in flight
   cross |-> <<>>,                \* acknowledged since the last Settle
   maybe |-> <<>>,                \* in flight, but such an acknowledgement may have freed them
   acks |-> <<>>,                 \* PUBACKs due: <<identifier, number of its notification>>
   notes |-> <<>>, nin |-> 0, got |-> 0, must |-> 0, lastNote |-> [k |-> "none"],
   tl |-> 0, early |-> FALSE,
   cut |-> FALSE,                 \* the broker closed its socket: the client's writes may fail
   lost |-> FALSE,                \* the client's socket was reset: what it wrote last may be lost
   over |-> FALSE,                \* nothing the broker sends counts any more
   causes |-> IF refused THEN {"refused"} ELSE {}, alt |-> FALSE,
   lax |-> FALSE,
   done |-> "no",                 \* no, ok, err, panic, gone (dropped before it had finished)
   weof |-> FALSE, nend |-> FALSE, rx |-> TRUE, drops |-> FALSE,
   reading |-> TRUE, drain |-> TRUE, slow |-> FALSE, halted |-> FALSE,
   big |-> 0, wide |-> 0, peak |-> 0, \* largest packet, largest of the client's (KB), most things outstanding (of 64)
   base |-> -1,                   \* memory held at rest since either of them last grew
   ip |-> 0, it |-> 0,            \* polls since only time passes, and since when that is
   storm |-> FALSE,               \* there is always a packet to read
   late |-> [p |-> 0, c |-> 0, u |-> 0],  \* notifications while something was overdue
   stim |-> {}, refusal |-> FALSE, bigs |-> FALSE,
   w |-> <<>>, n |-> <<>>, ref |-> [grp |-> "", w |-> <<>>, n |-> <<>>, d |-> "no"],
   viol |-> {}]

V(m, ps, why) == [m EXCEPT !.viol = @ \cup {<<p, why>> : p \in ps}]
VIf(m, c, ps, why) == IF c /\ ~m.lax THEN V(m, ps, why) ELSE m

Blocked(m) == ~m.drain /\ m.rx /\ Len(m.notes) > NCap
Ctx(m) == (IF m.drops THEN {"C18"} ELSE {}) \cup (IF m.exh THEN {"C07"} ELSE {})
CauseProp(c) ==
  CASE c \in {"refused", "hs"} -> "C02"
    [] c = "bad" -> "C13"
    [] c \in {"sdok", "sderr", "eof", "eofmid", "rst", "close"} -> "C17"
    [] OTHER -> "C16"
Results(c) == CASE c \in {"sdok", "eof", "udisc"} -> {"ok"}
                [] c = "close" -> {"ok", "err"}
                [] OTHER -> {"err"}

(* what a client has to remember: sizes of packets, and how many are outstanding *)
Grow(m, n) == IF n \div 1024 > m.big THEN [m EXCEPT !.big = n \div 1024, !.base = -1] ELSE m
GrowOut(m, n) == LET a == Grow(m, n) IN IF n \div 1024 > a.wide THEN [a EXCEPT !.wide = n \div 1024] ELSE a
Load(m) == IvSize(m.infl) + QLen(m.cmds) + Len(m.notes)
RECURSIVE MaxLen(_)
MaxLen(fs) == IF fs = <<>> THEN 0 ELSE LET a == RLen(Head(fs)) b == MaxLen(Tail(fs)) IN IF a > b THEN a ELSE b
-----------------------------------------------------------------------------
(* one packet from the broker *)
FreeAll(m, rs) == [m EXCEPT !.infl = RemAll(@, rs), !.maybe = RemAll(@, rs), !.cross = AddAll(@, rs)]
Freed(m, d) == IF d.ty \in {4, 9, 11} /\ d.id > 0 THEN FreeAll(m, <<<<d.id, d.id>>>>) ELSE m

Note(m, n) == IF m.rx THEN [m EXCEPT !.notes = Append(@, n), !.nin = @ + 1] ELSE m

Frame1(m0, f, t) ==
  LET d == DecS(f) m == Freed(m0, d) IN
  IF m.over \/ m.done # "no" \/ m.lax THEN m
  ELSE IF d.v = "lax" THEN [m EXCEPT !.lax = TRUE]
  ELSE IF m.hs = "wait" THEN
    IF d.v = "ok" /\ d.ty = 2 THEN
      IF d.rc = 0 THEN [Note(m, d.n) EXCEPT !.hs = "live", !.lastPing = t]
      ELSE [Note(m, d.n) EXCEPT !.hs = "fail", !.over = TRUE, !.causes = @ \cup {"hs"}]
    ELSE [m EXCEPT !.hs = "fail", !.over = TRUE, !.causes = @ \cup {"hs"}]
  ELSE IF d.v = "bad" \/ d.ty = 2 THEN [m EXCEPT !.over = TRUE, !.causes = @ \cup {"bad"}]
  ELSE CASE d.ty = 3 ->
              IF d.rc = 1
                THEN LET k == Note(m, d.n) IN [k EXCEPT !.acks = Append(@, <<d.id, k.nin>>)]
                ELSE Note(m, d.n)
         [] d.ty = 4 -> m
         [] d.ty \in {9, 11} -> Note(m, d.n)
         [] d.ty = 13 -> [m EXCEPT !.unans = -1, !.pend = IF @ = -1 THEN m.unans ELSE @,
                                   !.prep = m.unans = -1]
         [] d.ty = 14 -> [m EXCEPT !.over = TRUE,
                                   !.causes = @ \cup {IF d.rc = 0 THEN "sdok" ELSE "sderr"}]

RECURSIVE Frames(_, _, _)
Frames(m, fs, t) == IF fs = <<>> THEN m ELSE Frames(Frame1(m, Head(fs), t), Tail(fs), t)

(* an incomplete packet that already cannot become a good one *)
Hopeless(th) ==
  /\ th # <<>>
  /\ \/ Hd(th) \div 16 \notin {2, 3, 4, 9, 11, 13, 14}
     \/ LET r == Tl(th) IN
        RLen(r) >= 4 /\ LET x == Split(r, 4).a IN \A i \in 1..Len(x) : x[i][1] >= 128

ObsBSend(m0, e) ==
  LET m == Grow(m0, MaxLen(e.fr) + e.tl)
      a == Frames(m, e.fr, e.t) IN
  IF a.over \/ a.done # "no" THEN a
  ELSE [a EXCEPT !.tl = e.tl, !.early = @ \/ Hopeless(e.th)]

ObsBEnd(m0, e) ==
  IF m0.done # "no" THEN m0
  ELSE
  LET m == [m0 EXCEPT !.cut = @ \/ e.how # "fin"] IN
  LET c == IF e.how = "rst" THEN "rst"
           ELSE IF m.hs = "wait" THEN "hs"
           (* a write may fail then, but nothing makes a success of a stream that *)
           (* ends inside a packet, or of an error that came before            *)
           ELSE IF e.how = "close" THEN
             IF IF m.over THEN \A x \in m.causes : Results(x) = {"err"} ELSE m.tl > 0 THEN "rst" ELSE "close"
           ELSE IF m.tl > 0 THEN "eofmid" ELSE "eof"
      c2 == IF m.hs = "wait" THEN {"hs"} ELSE {c}
  IN IF m.over THEN (IF e.how = "fin" THEN m ELSE [m EXCEPT !.causes = @ \cup {c}])
     ELSE [m EXCEPT !.over = TRUE, !.causes = @ \cup c2,
                    !.hs = IF @ = "wait" THEN "fail" ELSE @]
-----------------------------------------------------------------------------
(* API calls *)
ObsCall1(m, e) ==
  LET c == CmdOf(e) n == QLen(m.cmds) IN
  IF e.panic THEN V(m, {"C19"} \cup (IF Big(c) THEN {"C05"} ELSE {}) \cup Ctx(m), "call panicked")
  ELSE IF e.ok THEN
    LET a == IF Unrep(c) THEN V(m, {"C05"}, "unrepresentable argument accepted") ELSE m
        b == IF m.done # "no" THEN V(a, {"C19", "C22"}, "call accepted after the event loop ended") ELSE a
        z == GrowOut(b, RLen(c.topic) + RLen(c.pl) + PropsLen(c))
    IN [z EXCEPT !.cmds = PushCmd(@, c, 1), !.bigs = @ \/ Big(c)]
  ELSE
    LET a == [m EXCEPT !.refusal = TRUE] IN
    IF Unrep(c) \/ n >= Cap \/ m.done # "no" THEN a
    ELSE V(a, {"C19"} \cup (IF Big(c) THEN {"C05"} ELSE {}) \cup Ctx(m), "call refused without reason")
(* a call returns at once; "missing" because the machine may be at fault *)
ObsCall(m, e) ==
  IF e.late THEN V(ObsCall1(m, e), {"C19"}, "missing: return of the call at once")
  ELSE ObsCall1(m, e)
-----------------------------------------------------------------------------
(* a connection of the client's arrived at a broker *)
ObsAccept(m) ==
  IF ~m.drive THEN V([m EXCEPT !.lax = TRUE], {"C24"}, "connection before the event loop was driven")
  ELSE IF m.done # "no" THEN V(m, {"C24", "C22"}, "connection after the event loop ended")
  ELSE IF m.acc THEN V(m, {"C24"}, "another connection")
  ELSE [m EXCEPT !.acc = TRUE]
-----------------------------------------------------------------------------
(* packets the client writes *)
Kept(m) == [m EXCEPT !.late.c = 0]
LogW(m, p) == IF m.grp = "" THEN m ELSE [m EXCEPT !.w = Append(@, p)]

RECURSIVE Find(_, _, _)
(* position of the first queued command the packet says, 0 if none *)
Find(q, d, i) == IF i > Len(q) THEN 0 ELSE IF Says(d, q[i].c) THEN i ELSE Find(q, d, i + 1)

TakeId(m, d) ==
  IF ~(d.ty \in {8, 10} \/ (d.ty = 3 /\ d.qos > 0)) THEN m
  ELSE LET a == VIf(m, d.id = 0 \/ d.id > MaxId, {"C06"}, "packet identifier out of range")
           b == VIf(a, InIv(m.infl, d.id) /\ ~InIv(m.maybe, d.id), {"C06"} \cup Ctx(m), "packet identifier already in flight")
           iv == IF d.id = 0 THEN m.infl ELSE AddIv(m.infl, d.id, d.id)
           mb == IF InIv(m.cross, d.id) THEN AddIv(m.maybe, d.id, d.id) ELSE m.maybe
       IN [b EXCEPT !.infl = iv, !.maybe = mb, !.exh = @ \/ d.id > MaxId - 600]

WireCmd(m0, d) ==
  LET m == Kept(m0)
      k == Find(m.cmds, d, 1) IN
  IF k = 1 THEN [m EXCEPT !.cmds = PopCmd(@, 1), !.last = Head(m.cmds).c]
  ELSE IF k > 1 THEN
    [V(m, {"C03"} \cup Ctx(m) \cup (IF \E i \in 1..(k - 1) : m.cmds[i].c.k = "disc" THEN {"C16"} ELSE {}),
       "command transmitted before an earlier one")
       EXCEPT !.cmds = PopCmd(SubSeq(m.cmds, k, Len(m.cmds)), 1), !.last = m.cmds[k].c]
  ELSE IF Says(d, m.last) THEN
    (* or it should have said what the next one does *)
    V(m, {"C03"} \cup Ctx(m) \cup (IF m.cmds # <<>> /\ Head(m.cmds).c.k = KindOf(d.ty) THEN {"C04"} ELSE {}), "command transmitted twice")
  ELSE IF m.cmds # <<>> /\ Head(m.cmds).c.k = KindOf(d.ty) THEN
    [V(m, {"C03", "C04"} \cup (IF Unrep(Head(m.cmds).c) THEN {"C05"} ELSE {}), "packet differs from the command")
       EXCEPT !.cmds = PopCmd(@, 1), !.last = Head(m.cmds).c]
  ELSE V(m, {"C03", "C04"} \cup (IF m.refusal THEN {"C05", "C19"} ELSE {}) \cup Ctx(m), "packet nobody asked for")

WireAck(m, d) ==
  LET x == {i \in 1..Len(m.acks) : m.acks[i][1] = d.id} IN
  IF d.rc # 0 THEN VIf(m, TRUE, {"C08"}, "PUBACK with an error code")
  ELSE IF x = {} THEN
    VIf(m, TRUE, {"C08"} \cup (IF "bad" \in m.causes THEN {"C13"} ELSE {}), "PUBACK for nothing")
  ELSE LET i == CHOOSE i \in x : \A j \in x : i <= j
           a == VIf(m, i > 1, {"C08"}, "PUBACK out of order")
       IN [a EXCEPT !.acks = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
                    !.must = IF m.acks[i][2] > @ THEN m.acks[i][2] ELSE @]

WirePing(m, t) ==
  LET a == VIf(m, m.unans >= 0 /\ ~m.fuzzy, {"C14"}, "PINGREQ while one is unanswered")
      b == VIf(a, ~m.fuzzy /\ t - m.lastPing < m.ka - Slack, {"C14"}, "PINGREQ before the interval is over")
  (* an unasked PINGRESP that is still on its way answers it, or does not *)
  IN [b EXCEPT !.lastPing = t, !.unans = IF @ >= 0 THEN @ ELSE t, !.fuzzy = @ \/ m.prep, !.pend = -1, !.late.p = 0]

WireDisc(m, d) ==
  LET a == IF d.rc # 0 THEN V(m, {"C16"}, "DISCONNECT with an error code") ELSE m
      x == {i \in 1..Len(m.cmds) : m.cmds[i].c.k = "disc"}
  IN IF x = {} THEN [V(a, {"C16", "C03"} \cup Ctx(m), "DISCONNECT nobody asked for") EXCEPT !.udisc = TRUE]
     ELSE LET i == CHOOSE i \in x : \A j \in x : i <= j IN
       [(IF i > 1 THEN V(a, {"C16", "C03"} \cup Ctx(m), "DISCONNECT before an earlier command") ELSE a)
          EXCEPT !.cmds = PopCmd(SubSeq(@, i, Len(@)), 1), !.udisc = TRUE, !.causes = @ \cup {"udisc"}]

BadProp(p) ==
  LET ty == IF p = <<>> THEN 0 ELSE Hd(p) \div 16 IN
  CASE ty = 1 -> {"C01"} [] ty = 4 -> {"C08"} [] ty = 12 -> {"C14"} [] ty = 14 -> {"C16"}
    [] OTHER -> {"C03", "C04"}

(* it writes, so it has read the CONNACK, which is the first notification *)
Greeted(m) == IF m.rx /\ m.must = 0 THEN [m EXCEPT !.must = 1] ELSE m

ObsWire(m0, e) ==
  LET m == LogW(m0, e.p)
      d == DecC(e.p) IN
  IF ~m.conn THEN
    LET a == [m EXCEPT !.conn = TRUE] IN
    IF d.ok /\ d.ty = 1 /\ d.clean /\ d.ka > 0 /\ d.cid # <<>>
      THEN [a EXCEPT !.ka = d.ka * 1000]
      ELSE V(a, {"C01"}, "first packet is not a good CONNECT")
  ELSE IF m.lax /\ ~(d.ok /\ d.ty \in {3, 8, 10}) THEN m
  ELSE IF m.udisc THEN V(m, {"C16"} \cup (IF d.ok /\ d.ty \in {3, 8, 10} THEN {"C03"} ELSE {}), "packet after DISCONNECT")
  ELSE IF ~d.ok THEN
    LET a == V(m, BadProp(e.p) \cup (IF m.bigs THEN {"C05"} ELSE {}), "malformed packet written") IN
    IF m.cmds # <<>> /\ e.p # <<>> /\ Head(m.cmds).c.k = KindOf(Hd(e.p) \div 16)
      THEN [a EXCEPT !.cmds = PopCmd(@, 1)] ELSE a
  ELSE IF d.ty = 1 THEN V(m, {"C01"}, "second CONNECT")
  ELSE IF m.hs = "wait" THEN V(m, {"C01"}, "packet before CONNACK")
  ELSE IF m.hs = "fail" THEN V(m, {"C02"}, "packet after a failed handshake")
  ELSE LET g == Greeted(m) IN
       CASE d.ty \in {3, 8, 10} -> TakeId(WireCmd(g, d), d)
         [] d.ty = 4 -> WireAck(g, d)
         [] d.ty = 12 -> WirePing(g, e.t)
         [] d.ty = 14 -> WireDisc(g, d)

RECURSIVE RangesMeet(_, _)
RangesMeet(iv, rs) == rs # <<>> /\ (Meets(iv, Head(rs)[1], Head(rs)[2]) \/ RangesMeet(iv, Tail(rs)))

(* e.n times the same small publish was accepted, e.w of them were written *)
ObsBulk(m, e) ==
  LET c == FloodCmd(e.qos)
      q == PushCmd(m.cmds, c, e.n)
      a == IF e.w = 0 THEN [m EXCEPT !.cmds = q]
           ELSE IF q # <<>> /\ Head(q).c = c /\ Head(q).n >= e.w
             THEN [m EXCEPT !.cmds = PopCmd(q, e.w), !.last = c]
           ELSE [V(m, {"C03"} \cup Ctx(m), "command transmitted before an earlier one, or twice") EXCEPT !.cmds = <<>>]
      b == VIf(a, e.qos > 0 /\ (RangesMeet(RemAll(m.infl, m.maybe), e.ids) \/ e.rep > 0), {"C06"}, "packet identifier already in flight")
      c1 == VIf(b, e.qos > 0 /\ \E i \in 1..Len(e.ids) : e.ids[i][1] = 0, {"C06"}, "packet identifier out of range")
      iv == IF e.qos > 0 THEN AddAll(m.infl, e.ids) ELSE m.infl
      d1 == IF e.late THEN V(c1, {"C19"}, "missing: return of the call at once") ELSE c1
  IN [d1 EXCEPT !.infl = iv, !.maybe = IF m.cross = <<>> THEN @ ELSE AddAll(@, m.cross), !.exh = @ \/ IvSize(iv) > MaxId - 600]
-----------------------------------------------------------------------------
(* notifications *)
NoteOf(e) ==
  IF e.k = "message"
    THEN [k |-> e.k, topic |-> e.topic, txt |-> e.txt, pl |-> e.pl, props |-> e.props,
          qos |-> e.qos, retain |-> e.retain, dup |-> e.dup, id |-> e.id]
    ELSE [k |-> e.k, id |-> e.id, sp |-> e.sp, rc |-> e.rc, props |-> e.props]

RECURSIVE FindNote(_, _, _)
FindNote(q, n, i) == IF i > Len(q) THEN 0 ELSE IF q[i] = n THEN i ELSE FindNote(q, n, i + 1)

ObsNote(m, n, raw) ==
  LET pop(a, i) == [a EXCEPT !.notes = SubSeq(@, i + 1, Len(@)), !.got = @ + i, !.lastNote = n] IN
  IF m.notes = <<>> THEN
    V(m, {"C09"} \cup (IF m.causes \cap {"bad", "hs"} # {} THEN {"C13"} ELSE {}) \cup Ctx(m), "notification of nothing")
  ELSE LET h == Head(m.notes) k == FindNote(m.notes, n, 1) IN
    IF k = 1 THEN pop(m, 1)
    ELSE IF k > 1 THEN pop(V(m, {"C09"} \cup Ctx(m), "notification lost or out of order"), k)
    ELSE IF n = m.lastNote THEN V(m, {"C09"} \cup Ctx(m), "packet notified twice")
    ELSE IF h.k = n.k THEN pop(V(m, {"C10"}, "notification differs from the packet"), 1)
    ELSE pop(V(m, {"C09"}, "notification of the wrong kind"), 1)
Patience == 1500
ObsNotif(m0, e) ==
  LET raw == "raw" \in DOMAIN e
      n == IF raw THEN [k |-> e.k] ELSE NoteOf(e)
      m == IF m0.grp = "" THEN m0 ELSE [m0 EXCEPT !.n = Append(@, IF raw THEN [k |-> e.k, raw |-> e.raw] ELSE n)]
      \* under a steady stream of packets everything else is due all the same
      busy == m0.storm /\ m0.hs = "live" /\ m0.done = "no" /\ ~m0.lax
      over == [p |-> IF busy /\ m0.unans < 0 /\ e.t - m0.lastPing > m0.ka + Slack THEN m0.late.p + 1 ELSE 0,
               c |-> IF busy /\ m0.cmds # <<>> /\ IvSize(m0.infl) < MaxId THEN m0.late.c + 1 ELSE 0,
               u |-> IF busy /\ m0.unans >= 0 /\ e.t - m0.unans > m0.ka + Slack THEN m0.late.u + 1 ELSE 0]
  IN
  IF m.lax THEN m
  ELSE IF m.storm /\ (over.p = Patience \/ over.c = Patience \/ over.u = Patience) THEN
    ObsNote([V(m, (IF over.p = Patience THEN {"C14"} ELSE {}) \cup (IF over.c = Patience THEN {"C03"} ELSE {})
                   \cup (IF over.u = Patience THEN {"C15"} ELSE {}), "missing: anything but reading packets") EXCEPT !.late = over], n, raw)
  ELSE IF m.storm /\ over # m.late THEN ObsNote([m EXCEPT !.late = over], n, raw)
  ELSE ObsNote(m, n, raw)
-----------------------------------------------------------------------------
(* the event loop finished *)
PingTimedOut(m, t) ==
  m.hs = "live" /\ (m.fuzzy \/ (m.unans >= 0 /\ t - m.unans >= m.ka - Slack)
                            \/ (m.pend >= 0 /\ t - m.pend >= m.ka - Slack))

ObsDone(m0, e) ==
  LET r == IF e.ok THEN "ok" ELSE "err"
      m == [m0 EXCEPT !.done = r]
      pto == r = "err" /\ PingTimedOut(m, e.t)
      ud == r = "ok" /\ (m.udisc \/ (m.lost /\ \E i \in 1..Len(m.cmds) : m.cmds[i].c.k = "disc"))
      fits == \E c \in m.causes : r \in Results(c)
      (* whoever has written its DISCONNECT is done *)
      mute == r = "err" /\ m.udisc /\ ~m.cut
      just == ~mute /\ (pto \/ ud \/ fits \/ (m.early /\ r = "err"))
      a == [m EXCEPT !.alt = pto \/ ud \/ m.cut]
  IN IF m.lax \/ just THEN a
     ELSE IF m.causes # {} THEN V(a, {CauseProp(c) : c \in m.causes} \cup Ctx(m), "wrong result")
     ELSE V([a EXCEPT !.causes = {"none"}],
            {"C20"} \cup Ctx(m)
              \cup (IF e.kind = "TimedOut" THEN {"C15"} ELSE {})
              \cup (IF m.refusal THEN {"C19"} ELSE {})
              \cup (IF m.refusal \/ m.bigs THEN {"C05"} ELSE {})
              \cup (IF m.slow THEN {"C09"} ELSE {})
              \cup (IF m.hs = "wait" THEN {"C01"} ELSE {})
              \cup (IF ~m.acc THEN {"C24"} ELSE {})
              \cup (IF r = "ok" THEN {"C16", "C17"} ELSE IF "b" \in m.stim THEN {"C13"} ELSE {})
              \cup (IF m.cmds # <<>> THEN {"C03"} ELSE {})
              \cup (IF m.acks # <<>> THEN {"C08"} ELSE {})
              \cup (IF m.notes # <<>> /\ m.drain THEN {"C09", "C10"} ELSE {}),
            "event loop ended for no reason")

Crash(m, why) ==
  [V(m, {"C20"} \cup Ctx(m)
        \cup (IF "b" \in m.stim THEN {"C12"} ELSE {})
        \cup (IF "b" \in m.stim /\ m.acks # <<>> THEN {"C08"} ELSE {})
        \cup (IF "b" \in m.stim /\ m.notes # <<>> THEN {"C09"} ELSE {})
        \cup (IF "bad" \in m.causes THEN {"C13"} ELSE {})
        \cup (IF "hs" \in m.causes THEN {"C02"} ELSE {})
        \cup (IF m.causes \cap {"eof", "eofmid", "sdok", "sderr", "rst", "close"} # {} THEN {"C17"} ELSE {})
        \cup (IF "c" \in m.stim /\ m.cmds # <<>> THEN {"C03"} \cup (IF m.bigs THEN {"C05"} ELSE {}) ELSE {})
        \cup (IF \E i \in 1..Len(m.cmds) : m.cmds[i].c.k = "disc" THEN {"C16"} ELSE {})
        \cup (IF m.stim = {"t"} THEN {"C14", "C15"} ELSE {}), why)
     EXCEPT !.done = "panic", !.lax = TRUE]
-----------------------------------------------------------------------------
(* the client is idle: everything due must have happened *)
DueLive(m, t) ==
  LET slow == IF m.slow THEN {"C09"} ELSE {}
      halt == IF m.halted THEN {"C20"} ELSE {}
      full == IvSize(m.infl) >= MaxId
      a == VIf(m, m.cmds # <<>> /\ ~full,
               {"C03"} \cup Ctx(m) \cup slow \cup halt
                 \cup (IF m.refusal THEN {"C19"} ELSE {})
                 \cup (IF \E i \in 1..Len(m.cmds) : m.cmds[i].c.k = "disc" THEN {"C16"} ELSE {}),
               "missing: accepted command not transmitted")
      b == VIf(a, m.acks # <<>>, {"C08"} \cup Ctx(m) \cup slow \cup halt, "missing: PUBACK")
      c == VIf(b, m.drain /\ m.rx /\ m.notes # <<>>, {"C09"} \cup Ctx(m) \cup halt, "missing: notification")
      d == VIf(c, ~m.fuzzy /\ m.unans < 0 /\ t - m.lastPing > m.ka + Slack, {"C14"} \cup Ctx(m), "missing: PINGREQ")
      f == VIf(d, ~m.fuzzy /\ m.unans >= 0 /\ t - m.unans > m.ka + Slack, {"C15"} \cup Ctx(m), "missing: end after an unanswered PINGREQ")
  IN f

(* with the event loop everything ends *)
Ended(m) == VIf(m, m.drain /\ m.rx /\ ~m.nend, {"C22"}, "missing: end of the notifications")

DueDone(m) ==
  LET a == VIf(m, ~m.alt /\ m.acks # <<>> /\ m.hs = "live", {"C08", "C20"} \cup {CauseProp(c) : c \in m.causes \ {"none"}}, "missing: PUBACK before the end")
      b == VIf(a, ~m.alt /\ m.drain /\ m.rx /\ m.notes # <<>>, {"C09", "C20"} \cup {CauseProp(c) : c \in m.causes \ {"none"}}, "missing: notification before the end")
      c == VIf(b, m.drain /\ m.rx /\ m.got < m.must, {"C09", "C20"} \cup (IF m.got = 0 THEN {"C02"} ELSE {}),
               "missing: notification of something that was handled")
      d == VIf(c, m.acc /\ ~m.weof /\ ~m.cut,
               {"C22"} \cup (IF m.udisc THEN {"C16"} ELSE {"C17"}), "missing: connection not closed")
  IN Ended(d)

(* a message was notified, so its PUBACK was written *)
Half(m) == VIf(m, m.rx /\ ~m.cut /\ \E i \in 1..Len(m.acks) : m.acks[i][2] <= m.got /\ m.got > 0,
               {"C08", "C20"}, "missing: PUBACK of a notified message")

Due(m, t) ==
  IF m.lax \/ (~m.drive /\ m.done = "no") THEN m
  ELSE IF m.done = "panic" THEN m
  ELSE IF m.done = "gone" THEN
    (IF m.reading THEN VIf(Ended(m), m.acc /\ ~m.weof /\ ~m.cut, {"C22"}, "missing: connection not closed") ELSE m)
  ELSE IF m.done # "no" THEN (IF m.reading THEN Half(DueDone(m)) ELSE m)
  ELSE IF m.refused THEN V(m, {"C02"}, "missing: end after the connection was refused")
  ELSE IF ~m.acc THEN V(m, {"C01", "C24"}, "missing: connection")
  ELSE IF ~m.conn THEN (IF m.reading THEN V(m, {"C01"}, "missing: CONNECT") ELSE m)
  ELSE IF ~m.reading \/ Blocked(m) THEN m
  ELSE
    LET a == VIf(m, m.nend, {"C09"}, "notifications ended before the event loop")
        b == VIf(a, m.weof, {"C17", "C03"}, "connection closed before the event loop ended")
        c == Half(b)
    IN IF m.causes # {}
         THEN V(c, {CauseProp(x) : x \in m.causes} \cup (IF m.slow THEN {"C09"} ELSE {})
                   \cup (IF m.causes \cap {"eof", "eofmid", "hs", "rst", "close"} # {} THEN {"C12"} ELSE {})
                   \cup Ctx(m), "missing: end of the event loop")
       ELSE IF m.hs = "live" THEN DueLive(c, t)
       ELSE VIf(c, m.drain /\ m.rx /\ m.notes # <<>>, {"C09"}, "missing: notification")

(* what the client holds in memory is bounded by what is outstanding: a few  *)
(* buffers of the largest packet, something per thing outstanding - for what *)
(* it transmits, of the largest size that has; for a notification, of its    *)
(* own size, but only so many of them - something for what once was          *)
NoteSize(n) == RLen(EncPropList(n.props)) + (IF n.k = "message" THEN RLen(n.topic) + RLen(n.pl) ELSE 0)
RECURSIVE NotesSize(_, _, _)
NotesSize(ns, i, k) == IF i > k THEN 0 ELSE NoteSize(ns[i]) + NotesSize(ns, i + 1, k)
Few(n) == IF n > 1000 THEN 1000 + (n - 1000) \div 4 ELSE n
Allowed(m) ==
  LET out == IvSize(m.infl) + QLen(m.cmds)
      wide == IF m.wide > 10000 THEN 10000 ELSE m.wide
      l == Len(m.notes)
      k == IF l > 1000 THEN 1000 ELSE l
      held == IF k = 0 THEN 0 ELSE 12 * (NotesSize(m.notes, 1, k) \div k) * Few(l) IN
  Room + 8 * m.big + m.peak * 16 + Few(Load(m)) + 8 * wide * Few(out) + held \div 1024
(* commands are not accepted without limit either *)
TooMany == 2000
Resources(m0, e) ==
  LET p == Load(m0) \div 64
      m == IF p > m0.peak THEN [m0 EXCEPT !.peak = p, !.base = -1] ELSE m0
      rest == Load(m) = 0 /\ m.hs = "live"
      y == VIf(m, QLen(m.cmds) > TooMany, {"C21"}, "missing: limit on the commands that wait for a peer that does not read")
      z == VIf(y, (e.kb > Room + 8 * m.big /\ e.kb > Allowed(m)) \/ (rest /\ m.base >= 0 /\ e.kb > m.base + Room \div 8 + 4 * m.big), {"C21"}, "missing: release of memory")
      a == IF rest /\ m.base < 0 THEN [z EXCEPT !.base = e.kb] ELSE z
      still == m.stim \subseteq {"t"} /\ m.conn /\ m.done = "no"
      b == IF ~still \/ m.storm THEN [a EXCEPT !.ip = 0, !.it = e.t]
           ELSE IF e.polls = 0 THEN a ELSE [a EXCEPT !.ip = @ + e.polls]
  IN VIf(b, b.ip > 20 + 6 * (1 + (e.t - b.it) \div (IF m.ka = 0 THEN 8000 ELSE m.ka)),
         {"C21"} \cup (IF m.drops THEN {"C18"} ELSE {}), "missing: rest while nothing happens")

ObsSettle(m0, e) ==
  LET m1 == [m0 EXCEPT !.drain = e.drain, !.reading = e.reading]
      m == IF m1.done = "panic" THEN m1 ELSE Resources(m1, e) IN
  IF ~m.reading \/ Blocked(m) THEN [Due(m, e.t) EXCEPT !.stim = {}]
  ELSE [Due(m, e.t) EXCEPT !.stim = {}, !.pend = -1, !.prep = FALSE, !.cross = <<>>]

(* e.n QoS 1 messages that differ in their identifiers, which count up *)
CountUp(lo, n) == IF lo + n - 1 <= MaxU16 THEN <<<<lo, lo + n - 1>>>>
                  ELSE <<<<lo, MaxU16>>, <<1, lo + n - 1 - MaxU16>>>>
ObsRain(m, e) ==
  LET d == DecS(e.p) want == CountUp(e.lo, e.n) IN
  IF m.lax \/ m.hs # "live" \/ m.over \/ m.done # "no" \/ d.v # "ok" \/ d.ty # 3 \/ d.rc # 1 THEN [m EXCEPT !.lax = TRUE]
  ELSE LET a == VIf(Grow(m, e.len), e.acks # want, {"C08"}, "missing: every PUBACK, in order, for a long stream of messages")
           b == VIf(a, m.rx /\ e.ids # want, {"C09"}, "missing: every notification, in order, for a long stream of messages")
           c == VIf(b, m.rx /\ e.ids # <<>> /\ NoteOf(e.note) # [d.n EXCEPT !.id = 0], {"C10"}, "notification differs from the packet")
           x == DecC(e.ack)
       IN VIf(c, e.acks # <<>> /\ ~(x.ok /\ x.ty = 4 /\ x.rc = 0), {"C08"}, "malformed packet written")

(* Calls from several threads, on one counter: <<begin, end, result (0      *)
(* accepted, 1 refused, 2 panicked)>>; what was written, in order: <<which    *)
(* call (0: no call), when it was seen>>. An accepted call that ended before   *)
(* another began is transmitted before it.                                     *)
RECURSIVE InOrder(_, _, _, _)
InOrder(C, W, i, hi) ==
  IF i > Len(W) THEN TRUE
  ELSE LET c == W[i][1] IN
       IF c = 0 THEN InOrder(C, W, i + 1, hi)
       ELSE IF C[c][2] < hi THEN FALSE
       ELSE InOrder(C, W, i + 1, IF C[c][1] > hi THEN C[c][1] ELSE hi)
Waiting(C, W, r) == Cardinality({i \in 1..Len(C) : C[i][3] = 0 /\ C[i][1] < r[2]})
                    - Cardinality({i \in 1..Len(W) : W[i][2] < r[1]})
ObsThreads(m, e) ==
  LET C == e.calls W == e.wire live == m.done = "no"
      seen == {W[i][1] : i \in 1..Len(W)}
      a == VIf(m, 0 \in seen \/ \E i \in seen \ {0} : C[i][3] # 0, {"C03", "C19"}, "packet nobody asked for")
      b == VIf(a, Cardinality(seen) # Len(W), {"C03"}, "command transmitted twice")
      c == VIf(b, live /\ \E i \in 1..Len(C) : C[i][3] = 0 /\ i \notin seen, {"C03"}, "missing: accepted command not transmitted")
      d == VIf(c, ~InOrder(C, W, 1, 0), {"C03"}, "command transmitted before an earlier one")
      f == VIf(d, live /\ \E i \in 1..Len(C) : C[i][3] = 1 /\ QLen(m.cmds) + Waiting(C, W, C[i]) < Cap, {"C19"}, "call refused without reason")
      g == VIf(f, \E i \in 1..Len(C) : C[i][3] = 2, {"C19"}, "call panicked")
      h == VIf(g, e.rep > 0 \/ RangesMeet(RemAll(m.infl, m.maybe), e.ids), {"C06"}, "packet identifier already in flight")
  IN [h EXCEPT !.infl = AddAll(@, e.ids)]

(* runs of one group differ only in how the stream was cut up *)
ObsEnd(m) ==
  IF m.grp = "" THEN m
  ELSE IF m.ref.grp # m.grp
    THEN [m EXCEPT !.ref = [grp |-> m.grp, w |-> m.w, n |-> m.n, d |-> m.done]]
  ELSE IF m.w # m.ref.w THEN V(m, {"C11"}, "wrote something else than for another segmentation")
  ELSE IF m.n # m.ref.n THEN V(m, {"C11"}, "notified something else than for another segmentation")
  ELSE IF m.done # m.ref.d THEN V(m, {"C11"}, "ended otherwise than for another segmentation")
  ELSE m
-----------------------------------------------------------------------------
Stim(e) == CASE e.e \in {"BSend", "BEnd", "BAcks"} -> {"b"}
             [] e.e \in {"Call", "Bulk"} -> {"c"}
             [] e.e \in {"Storm", "Rain", "Threads", "Start"} -> {"b", "c"}
             [] e.e \in {"Drop", "DropRx", "Clone", "Gone", "Mode"} -> {"d"}
             [] OTHER -> {}

(* timing is judged only while the client was able to run *)
Clock(m, t) ==
  IF t <= m.t THEN m
  ELSE [m EXCEPT !.t = t, !.stim = @ \cup {"t"},
                 !.fuzzy = @ \/ (m.hs = "live" /\ (~m.reading \/ Blocked(m) \/ ("b" \in m.stim /\ ~m.storm)
                                    \/ t - m.t > m.ka))]

Obs(m0, e) ==
  IF e.e = "Begin" THEN [Fresh(e.id, e.refused, e.grp) EXCEPT !.ref = m0.ref, !.drive = ~e.net]
  ELSE
  LET k == IF m0.done = "no" THEN Clock(m0, e.t) ELSE m0
      m == [k EXCEPT !.stim = @ \cup Stim(e)] IN
  CASE e.e = "Accept" -> ObsAccept(m)
    [] e.e = "Drive" -> IF m.drive THEN m
                        ELSE [m EXCEPT !.drive = TRUE, !.refused = ~e.up,
                                       !.causes = IF e.up THEN @ ELSE @ \cup {"refused"}]
    [] e.e = "Call" -> ObsCall(m, e)
    [] e.e = "Clone" -> m
    [] e.e = "Drop" -> [m EXCEPT !.drops = TRUE]
    [] e.e = "DropRx" -> [m EXCEPT !.drops = TRUE, !.rx = FALSE, !.notes = <<>>, !.must = 0]
    [] e.e = "BSend" -> ObsBSend(m, e)
    [] e.e = "BEnd" -> ObsBEnd(m, e)
    [] e.e = "BAcks" -> FreeAll(m, e.ids)
    [] e.e = "Bulk" -> ObsBulk(m, e)
    [] e.e = "Threads" -> ObsThreads(m, e)
    [] e.e = "Rain" -> ObsRain(m, e)
    [] e.e = "Start" -> m  (* a long stream, reported at its end *)
    [] e.e = "Storm" -> [m EXCEPT !.storm = e.on, !.late = [p |-> 0, c |-> 0, u |-> 0], !.stim = @ \cup {"b"}]
    [] e.e = "Gone" -> [m EXCEPT !.done = "gone", !.alt = TRUE]
    [] e.e = "Connect" -> IF e.ok THEN m ELSE V(m, {"C19"}, "call refused without reason")
    [] e.e = "Wire" -> ObsWire(m, e)
    [] e.e = "WireEof" ->
         VIf([m EXCEPT !.weof = TRUE, !.lost = e.rst, !.cut = @ \/ e.rst], e.junk # <<>> /\ ~m.cut /\ ~e.rst /\ m.done # "gone",
             {"C04", "C20"}, "part of a packet written")
    [] e.e = "Notif" -> ObsNotif(m, e)
    [] e.e = "NEnd" -> [m EXCEPT !.nend = TRUE]
    [] e.e = "Mode" -> [m EXCEPT !.drain = e.drain, !.reading = e.reading,
                                 !.slow = @ \/ ~e.drain, !.halted = @ \/ ~e.reading]
    [] e.e = "Done" -> ObsDone(m, e)
    [] e.e = "Panic" -> Crash(m, "event loop panicked")
    [] e.e = "Hang" -> IF e.call THEN V([m EXCEPT !.done = "panic", !.lax = TRUE], {"C19"}, "call hangs")
                       ELSE Crash(m, "event loop hangs")
    [] e.e = "Spin" -> Crash(m, "event loop spins")
    [] e.e = "Settle" -> ObsSettle(m, e)
    [] e.e = "End" -> ObsEnd(m)

Init0 == Fresh("", FALSE, "")
=============================================================================
