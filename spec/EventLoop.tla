----------------------------- MODULE EventLoop -----------------------------
(***************************************************************************)
(* The client's event loop, one action per stimulus it handles, each run   *)
(* to completion before the next (src/lib.rs, `poll`).  A handler that has *)
(* something to tell the application ends in pc = "room": the loop is      *)
(* inside `sender.send(..).await` until the consumer has made room.        *)
(*                                                                         *)
(* wrote and pushed are what the last action put on the wire and into the  *)
(* notification channel.  The module is used by Session.tla (model         *)
(* checking, generation of schedules) and by SerialTrace.tla (is a         *)
(* recorded execution explained by handling one thing at a time).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, MqttWire

CONSTANTS IdMax,       \* packet identifiers are 1..IdMax
          NoteCap,     \* size of the notification channel
          Exact,       \* TRUE: the loop stops exactly when the channel is full
          Policies,    \* when the next tick is due: subset of {"burst", "delay", "skip"}
          Bug          \* "none", or the name of a deliberate defect

VARIABLES pc,      \* dial, greet, idle, room, done
          then,    \* after room: idle or err
          inq,     \* what arrived: [k |-> "pkt", f] or [k |-> "end", how]
          cmdq,    \* accepted commands
          used,    \* identifiers in flight, as the client sees it
          pong,    \* none, wait, got
          tick, now, ka,
          nq,      \* the notification channel
          rx,      \* the receiver is alive
          gone,    \* the broker's socket is closed: writes may fail
          res,     \* none, ok, err, panic
          wrote, pushed
loopvars == <<pc, then, inq, cmdq, used, pong, tick, now, ka, nq, rx, gone, res, wrote, pushed>>
envvars == <<now, ka, rx, gone>>

B(x) == Bug = x
Ids1 == 1..IdMax
HasVacant == Cardinality(used) < IdMax

LoopInit(k) ==
  /\ pc = "dial" /\ then = "idle" /\ inq = <<>> /\ cmdq = <<>> /\ used = {}
  /\ pong = "none" /\ tick = 0 /\ now = 0 /\ ka = k /\ nq = <<>> /\ rx = TRUE
  /\ gone = FALSE /\ res = "none" /\ wrote = <<>> /\ pushed = <<>>

Finish(r) == pc' = "done" /\ res' = r
Stay == UNCHANGED res

(* hand a note to the application, then go to state t ("idle" or "err") *)
Tell(n, t) ==
  IF ~rx
    THEN /\ (IF t = "err" THEN Finish("err") ELSE pc' = "idle" /\ Stay)
         /\ UNCHANGED <<nq, then>> /\ pushed' = <<>>
  ELSE IF B("nowait") /\ Len(nq) >= NoteCap
    THEN pc' = "idle" /\ Stay /\ pushed' = <<>> /\ UNCHANGED <<nq, then>>
  ELSE /\ nq' = Append(nq, n) /\ pushed' = <<n>>
       /\ pc' = "room" /\ then' = t /\ Stay

Quiet == wrote' = <<>> /\ pushed' = <<>>

(* a write may fail once the other end is closed *)
WriteFails == /\ gone /\ Finish("err") /\ Quiet
              /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars
-----------------------------------------------------------------------------
Connected(connect) ==
  /\ pc = "dial"
  /\ pc' = "greet" /\ Stay
  /\ wrote' = <<connect>> /\ pushed' = <<>>
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars
Refuse ==
  /\ pc = "dial" /\ Finish("err") /\ Quiet
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars

(* the first packet has to be a CONNACK *)
Greet ==
  /\ pc = "greet" /\ inq # <<>>
  /\ inq' = Tail(inq)
  /\ UNCHANGED <<cmdq, used, pong>> /\ UNCHANGED envvars
  /\ LET h == Head(inq) IN
     IF h.k = "end" THEN
       /\ Finish(IF B("hsok") THEN "ok" ELSE "err") /\ Quiet /\ UNCHANGED <<then, tick, nq>>
     ELSE LET d == DecS(h.f) IN
       IF d.v # "bad" /\ d.ty = 2 THEN
         /\ tick' = now + ka
         /\ wrote' = IF B("conn2") THEN <<EncConnect(ka \div 1000, <<<<99, 1>>>>)>> ELSE <<>>
         /\ Tell(d.n, IF d.rc = 0 \/ B("refgoeson") THEN "idle" ELSE "err")
       ELSE Finish("err") /\ Quiet /\ UNCHANGED <<then, tick, nq>>

NewUsed(id) == IF B("noreuse") THEN used ELSE used \ {id}

HandlePacket ==
  /\ pc = "idle" /\ inq # <<>>
  /\ inq' = Tail(inq)
  /\ UNCHANGED <<cmdq, tick>> /\ UNCHANGED envvars
  /\ LET h == Head(inq) IN
     IF h.k = "end" THEN
       /\ Finish(CASE h.how \in {"fin", "close"} -> IF B("eoferr") THEN "err" ELSE "ok"
                   [] OTHER -> "err")
       /\ Quiet /\ UNCHANGED <<then, used, pong, nq>>
     ELSE LET d == DecS(h.f) IN
     IF d.v = "bad" \/ d.ty = 2 THEN
       /\ (IF B("crash") THEN Finish("panic")
           ELSE IF B("goeson") THEN pc' = "idle" /\ Stay
           ELSE Finish(IF B("badok") THEN "ok" ELSE "err"))
       /\ Quiet /\ UNCHANGED <<then, used, pong, nq>>
     ELSE CASE d.ty = 3 ->
            /\ UNCHANGED <<used, pong>>
            /\ wrote' = (IF d.rc = 1 /\ ~B("noack") THEN <<EncPuback(d.id)>> ELSE <<>>)
                        \o (IF d.rc = 1 /\ B("ackdup") THEN <<EncPuback(d.id)>> ELSE <<>>)
            /\ IF B("nonote") \/ (B("half") /\ d.rc = 1 /\ cmdq # <<>>)
                 THEN pc' = "idle" /\ Stay /\ pushed' = <<>> /\ UNCHANGED <<then, nq>>
                 ELSE Tell(IF B("noteqos") THEN [d.n EXCEPT !.qos = 0] ELSE d.n, "idle")
       [] d.ty = 4 ->
            /\ used' = NewUsed(d.id) /\ pc' = "idle" /\ Stay /\ Quiet
            /\ UNCHANGED <<then, pong, nq>>
       [] d.ty \in {9, 11} ->
            /\ used' = NewUsed(d.id) /\ wrote' = <<>> /\ UNCHANGED pong
            /\ Tell(d.n, "idle")
       [] d.ty = 13 ->
            /\ pong' = (IF B("deafpong") THEN pong ELSE "got") /\ pc' = "idle" /\ Stay /\ Quiet
            /\ UNCHANGED <<then, used, nq>>
       [] d.ty = 14 ->
            /\ Finish(IF d.rc = 0 \/ B("sdok") THEN "ok" ELSE "err") /\ Quiet
            /\ UNCHANGED <<then, used, pong, nq>>

NeedsId(c) == c.k \in {"sub", "unsub"} \/ (c.k = "pub" /\ c.qos > 0)
PacketOf(c, id) ==
  LET e == EncCmd(c, id) IN
  CASE B("retain") /\ c.k = "pub" -> <<<<Hd(e) + 1, 1>>>> \o Tl(e)
    [] OTHER -> e
Next1(q) == IF B("lifo") THEN q[Len(q)] ELSE Head(q)
Rest1(q) == IF B("lifo") THEN SubSeq(q, 1, Len(q) - 1) ELSE Tail(q)

(* commands wait while there is no vacant identifier *)
CanCommand == /\ cmdq # <<>>
              /\ pc = "idle" \/ (B("early") /\ pc = "greet")
              /\ HasVacant \/ B("idfail")
              /\ ~(B("starve") /\ pong = "wait")

(* the loop takes the next command; id is the identifier it would use *)
HandleCommand(id) ==
  /\ CanCommand
  /\ LET c == Next1(cmdq) IN
     /\ cmdq' = Rest1(cmdq)
     /\ UNCHANGED <<then, inq, pong, tick, nq>> /\ UNCHANGED envvars
     /\ pushed' = <<>>
     /\ IF ~HasVacant THEN Finish("err") /\ wrote' = <<>> /\ UNCHANGED used
        ELSE
        /\ NeedsId(c) => IF B("id0") THEN id = 0 ELSE id \in Ids1 /\ (B("idreuse") \/ id \notin used)
        /\ ~NeedsId(c) => id = 0
        /\ used' = IF NeedsId(c) THEN used \cup {id} ELSE used
        /\ wrote' = CASE B("losecmd") /\ c.k = "sub" -> <<>>
                      [] B("dupcmd") -> <<PacketOf(c, id), PacketOf(c, id)>>
                      [] OTHER -> <<PacketOf(c, id)>>
        /\ IF c.k = "disc" /\ ~B("disccont") THEN Finish("ok") ELSE pc' = pc /\ Stay

HandleTick ==
  /\ pc = "idle" /\ now >= tick
  /\ UNCHANGED <<then, inq, cmdq, used, nq>> /\ UNCHANGED envvars
  /\ pushed' = <<>>
  /\ IF pong = "wait" /\ ~B("patient")
       THEN Finish("err") /\ wrote' = <<>> /\ UNCHANGED <<pong, tick>>
       ELSE /\ wrote' = (IF B("noping") THEN <<>> ELSE <<PingReq>>)
            /\ pong' = "wait" /\ pc' = "idle" /\ Stay
            /\ tick' \in {CASE p = "burst" -> tick + (IF B("pingmany") THEN ka \div 2 ELSE ka)
                             [] p = "skip" -> tick + ka * (1 + ((now - tick) \div ka))
                             [] OTHER -> now + ka : p \in Policies}

(* the notification was taken by the channel *)
RoomMade ==
  /\ pc = "room" /\ ~(B("lostwake") /\ cmdq # <<>>) /\ (~Exact \/ Len(nq) <= NoteCap \/ ~rx)
  /\ IF then = "err" THEN Finish("err") ELSE pc' = "idle" /\ Stay
  /\ Quiet
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars

(* deliberate defects that are actions of their own *)
Mutant ==
  \/ /\ B("rxend") /\ pc = "idle" /\ ~rx /\ Finish("err") /\ Quiet
     /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars
  \/ /\ B("discnow") /\ pc = "idle" /\ \E i \in 1..Len(cmdq) : cmdq[i].k = "disc"
     /\ Finish("ok") /\ wrote' = <<EncCmd([k |-> "disc"], 0)>> /\ pushed' = <<>>
     /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars

(* the kernel throws away what a reset connection had received *)
Reset ==
  /\ pc \in {"greet", "idle"} /\ gone
  /\ \E i \in 1..Len(inq) : inq[i].k = "end" /\ inq[i].how = "rst"
  /\ Finish("err") /\ Quiet
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars
-----------------------------------------------------------------------------
(* nothing left to do but wait *)
Idle ==
  \/ pc = "done"
  \/ pc = "greet" /\ inq = <<>> /\ (B("early") => cmdq = <<>>)
  \/ pc = "room" /\ Len(nq) > NoteCap /\ rx
  \/ /\ pc = "idle" /\ inq = <<>> /\ now < tick
     /\ cmdq = <<>> \/ (~HasVacant /\ ~B("idfail"))
=============================================================================
