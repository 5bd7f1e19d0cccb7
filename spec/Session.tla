------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The event loop (EventLoop.tla) with everything around it: an            *)
(* application calling the API and taking notifications at its own pace, a *)
(* broker sending any packets it likes and ending the stream any way it    *)
(* likes, and time.  The observer m of RuqObs watches; NoViolation says    *)
(* that the design has properties C01..C10, C13..C19, C21, C22 in every              *)
(* interleaving within the bounds.  With Bug set, it must not hold.        *)
(***************************************************************************)
EXTENDS RuqObs

CONSTANTS NPkts, NCmds, NSteps,    \* bounds on packets, calls and time steps
          PktSet, CmdSet, Ends,    \* what may be sent, called, and how it may end
          Drops,                   \* handles may be dropped
          Slow,                    \* the consumer may be slow
          Watch,                   \* the properties NoViolation is about
          Batch,                   \* TRUE: only schedules the harness can replay
          IdMax, NoteCap, Exact, Policies, Bug

VARIABLES pc, then, inq, cmdq, used, pong, tick, now, ka, nq, rx, gone, res, wrote, pushed
VARIABLES m,        \* the observer
          left,     \* budgets [p, c, t]
          dropped,  \* all client handles are gone
          hold,     \* the consumer does not take
          run       \* Batch: the loop is running, the environment waits
INSTANCE EventLoop
vars == <<pc, then, inq, cmdq, used, pong, tick, now, ka, nq, rx, gone, res, wrote, pushed,
          m, left, dropped, hold, run>>

KA == 1000
Txt(s) == FromSeq(s)
Cmd(k, topic, qos) == [k |-> k, topic |-> topic, pl |-> IF k = "pub" THEN <<<<120, 1>>>> ELSE <<>>,
                       txt |-> FALSE, qos |-> qos, props |-> <<>>]
T1 == <<<<97, 1>>>>
T2 == <<<<98, 1>>>>
NoCmd0 == [k |-> "disc", topic |-> <<>>, pl |-> <<>>, txt |-> FALSE, qos |-> 0, props |-> <<>>]
CmdOfName(n) ==
  CASE n = "pub0" -> Cmd("pub", T1, 0)
    [] n = "pub1" -> Cmd("pub", T1, 1)
    [] n = "pub1b" -> Cmd("pub", T2, 1)
    [] n = "sub" -> Cmd("sub", T1, 1)
    [] n = "unsub" -> Cmd("unsub", T1, 0)
    [] n = "big" -> Cmd("sub", <<<<97, 65536>>>>, 1)
    [] n = "max" -> Cmd("sub", <<<<97, 65535>>>>, 1)
    [] n = "disc" -> NoCmd0

PktOfName(n) ==
  CASE n = "connack" -> EncConnack(FALSE, 0, <<>>)
    [] n = "refused" -> EncConnack(FALSE, 135, <<>>)
    [] n = "m0" -> EncPublishS(FALSE, 0, FALSE, T1, 0, <<>>, <<<<109, 1>>>>)
    [] n = "m1" -> EncPublishS(FALSE, 1, FALSE, T1, 7, <<>>, <<<<110, 1>>>>)
    [] n = "m1d" -> EncPublishS(TRUE, 1, FALSE, T1, 7, <<>>, <<<<110, 1>>>>)
    [] n = "m1b" -> EncPublishS(FALSE, 1, TRUE, T2, 8, <<>>, <<<<111, 1>>>>)
    [] n = "ack1" -> EncPubackS(1, 0, <<>>, 0)
    [] n = "ack2" -> EncPubackS(2, 16, <<>>, 1)
    [] n = "sack1" -> EncSubackS(9, 1, 1, <<>>)
    [] n = "sack2" -> EncSubackS(9, 2, 128, <<>>)
    [] n = "uack1" -> EncSubackS(11, 1, 17, <<>>)
    [] n = "uack2" -> EncSubackS(11, 2, 0, <<>>)
    [] n = "pong" -> PingResp
    [] n = "dok" -> EncDisconnectS(0, <<>>, 1)
    [] n = "derr" -> EncDisconnectS(139, <<>>, 1)
    [] n = "m2" -> EncPublishS(FALSE, 2, FALSE, T1, 9, <<>>, <<<<112, 1>>>>)
    [] n = "bad" -> FromSeq(<<64, 2, 0, 0>>)
    [] n = "auth" -> FromSeq(<<240, 0>>)
-----------------------------------------------------------------------------
Ev(e, r) == [e |-> e, t |-> now] @@ r
NoteEv(n) == [e |-> "Notif", t |-> now] @@ n
WireEv(p) == [e |-> "Wire", t |-> now, p |-> p]
RECURSIVE Wires(_, _)
Wires(x, ps) == IF ps = <<>> THEN x ELSE Wires(Obs(x, WireEv(Head(ps))), Tail(ps))
RECURSIVE Notes(_, _)
Notes(x, ns) == IF ns = <<>> THEN x ELSE Notes(Obs(x, NoteEv(Head(ns))), Tail(ns))
DoneEv == [e |-> "Done", t |-> now, ok |-> res' = "ok",
           kind |-> IF res' = "err" /\ pong = "wait" /\ now >= tick /\ inq' = inq THEN "TimedOut" ELSE "other"]

(* after the loop finished the application can take what is in the channel *)
SessionInit ==
  /\ LoopInit(KA)
  /\ m = Fresh("model", FALSE, "")
  /\ left = [p |-> NPkts, c |-> NCmds, t |-> NSteps]
  /\ dropped = FALSE /\ hold = FALSE /\ run = FALSE

WriteFailsNow == pc = "idle" /\ WriteFails
(* mutant: the loop ends when the last handle is dropped *)
DropEnd ==
  /\ B("dropend") /\ dropped /\ pc = "idle" /\ cmdq = <<>> /\ Finish("ok") /\ Quiet
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq, now, ka, rx, gone>>

LoopNext ==
  \/ Connected(EncConnect(KA \div 1000, <<<<99, 1>>>>))
  \/ Greet \/ HandlePacket \/ HandleTick \/ RoomMade \/ WriteFailsNow \/ Reset \/ Mutant \/ DropEnd
  \/ \E id \in 0..IdMax : HandleCommand(id)

Loop ==
  /\ LoopNext
  /\ LET a == IF pc = "dial" THEN Obs(m, Ev("Accept", <<>>)) ELSE m
         b == Wires(a, wrote')
     IN m' = IF res' = "panic" THEN Obs(b, [e |-> "Panic", t |-> now])
             ELSE IF pc' = "done" THEN Obs(Obs(b, DoneEv), [e |-> "WireEof", t |-> now, junk |-> <<>>, rst |-> FALSE])
             ELSE b
  /\ UNCHANGED <<left, dropped, hold>>
  /\ run' = IF Batch THEN TRUE ELSE run

Env == UNCHANGED <<pc, then, used, pong, tick, ka, res, wrote, pushed>>
MayEnv == ~Batch \/ ~run
Keep == UNCHANGED run

Take ==
  /\ nq # <<>> /\ ~hold /\ rx
  /\ nq' = Tail(nq) /\ m' = Obs(m, NoteEv(Head(nq)))
  /\ Env /\ UNCHANGED <<inq, cmdq, now, rx, gone, left, dropped, hold, run>>

Refused == \/ pc = "done"
           \/ Len(cmdq) > (IF B("smallcap") THEN Cap - 2 ELSE Cap)
Call(n) ==
  /\ MayEnv /\ left.c > 0 /\ ~dropped
  /\ LET c == CmdOfName(n)
         no == Refused \/ (Unrep(c) /\ ~B("noguard"))
         late == pc = "done" /\ B("lateok") IN
     /\ cmdq' = IF no THEN cmdq ELSE Append(cmdq, c)
     /\ m' = Obs(m, Ev("Call", [c EXCEPT !.k = @] @@ [h |-> 0, ok |-> ~no \/ late, panic |-> FALSE,
                                         late |-> FALSE]))
  /\ left' = [left EXCEPT !.c = @ - 1]
  /\ Env /\ Keep /\ UNCHANGED <<inq, now, nq, rx, gone, dropped, hold>>

BrokerSend(n) ==
  /\ MayEnv /\ left.p > 0 /\ pc # "dial" /\ ~gone /\ pc # "done"
  /\ \A i \in 1..Len(inq) : inq[i].k # "end"
  /\ inq' = Append(inq, [k |-> "pkt", f |-> PktOfName(n)])
  /\ m' = Obs(m, Ev("BSend", [fr |-> <<PktOfName(n)>>, tl |-> 0, th |-> <<>>]))
  /\ left' = [left EXCEPT !.p = @ - 1]
  /\ Env /\ Keep /\ UNCHANGED <<cmdq, now, nq, rx, gone, dropped, hold>>

(* "mid" leaves an incomplete packet before the end of the stream *)
BrokerEnd(how) ==
  /\ MayEnv /\ pc # "dial" /\ ~gone /\ pc # "done"
  /\ \A i \in 1..Len(inq) : inq[i].k # "end"
  /\ ~m.over
  /\ inq' = Append(inq, [k |-> "end", how |-> how])
  /\ gone' = (how \in {"close", "rst"})
  /\ LET a == IF how = "mid" THEN Obs(m, Ev("BSend", [fr |-> <<>>, tl |-> 1, th |-> <<<<64, 1>>>>])) ELSE m
     IN m' = Obs(a, Ev("BEnd", [how |-> IF how = "mid" THEN "fin" ELSE how]))
  /\ Env /\ Keep /\ UNCHANGED <<cmdq, now, nq, rx, left, dropped, hold>>

DropAll ==
  /\ MayEnv /\ Drops /\ ~dropped
  /\ dropped' = TRUE /\ m' = Obs(m, Ev("Drop", [left |-> 0]))
  /\ Env /\ Keep /\ UNCHANGED <<inq, cmdq, now, nq, rx, gone, left, hold>>
DropRx ==
  /\ MayEnv /\ Drops /\ rx
  /\ rx' = FALSE /\ nq' = <<>> /\ m' = Obs(m, Ev("DropRx", <<>>))
  /\ Env /\ Keep /\ UNCHANGED <<inq, cmdq, now, gone, left, dropped, hold>>
SetHold ==
  /\ MayEnv /\ Slow /\ left.t > 0
  /\ hold' = ~hold
  /\ left' = [left EXCEPT !.t = @ - 1]
  /\ m' = Obs(m, Ev("Mode", [drain |-> hold, reading |-> TRUE]))
  /\ Env /\ Keep /\ UNCHANGED <<inq, cmdq, now, nq, rx, gone, dropped>>

(* the end of the notifications *)
TakeEnd ==
  /\ pc = "done" /\ nq = <<>> /\ ~hold /\ rx /\ ~m.nend /\ ~B("noend")
  /\ m' = Obs(m, Ev("NEnd", <<>>))
  /\ Env /\ UNCHANGED <<inq, cmdq, now, nq, rx, gone, left, dropped, hold, run>>

(* the application drops the loop before it has finished *)
Kill ==
  /\ MayEnv /\ "kill" \in Ends /\ pc # "done"
  /\ pc' = "done" /\ res' = "gone" /\ wrote' = <<>> /\ pushed' = <<>>
  /\ LET a == Obs(m, Ev("Gone", <<>>))
     IN m' = IF B("zombie") THEN a
             ELSE Obs(a, [e |-> "WireEof", t |-> now, junk |-> <<>>, rst |-> FALSE])
  /\ Keep /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, ka, now, nq, rx, gone, left, dropped, hold>>

Quiescent == /\ pc # "dial" /\ Idle
             /\ hold \/ ~rx \/ (nq = <<>> /\ (pc = "done" => m.nend \/ B("noend")))
Held == Len(nq) + Len(cmdq) + (IF pc = "idle" /\ inq = <<>> THEN Cardinality(used) ELSE 0)
SettleEv == Ev("Settle", [done |-> pc = "done", drain |-> ~hold, reading |-> TRUE, rx |-> rx,
                          polls |-> IF B("wakeful") /\ pc = "idle" THEN 30 ELSE 0, kb |-> Held])

(* time passes only while the client is idle, which wakes when a tick is due *)
Advance(d) ==
  /\ Quiescent /\ left.t > 0 /\ (pc = "idle" => now + d <= tick)
  /\ now' = now + d
  /\ m' = Obs(Obs(m, SettleEv), [e |-> "Mode", t |-> now + d, drain |-> ~hold, reading |-> TRUE])
  /\ left' = [left EXCEPT !.t = @ - 1]
  /\ Env /\ run' = FALSE
  /\ UNCHANGED <<inq, cmdq, nq, rx, gone, dropped, hold>>
Settle ==
  /\ Quiescent
  /\ m' = Obs(m, SettleEv) /\ m' # m
  /\ Env /\ run' = FALSE
  /\ UNCHANGED <<inq, cmdq, now, nq, rx, gone, left, dropped, hold>>
(* Batch: the environment lets the client run *)
Stop == /\ Batch /\ run /\ Quiescent /\ run' = FALSE
        /\ Env /\ UNCHANGED <<inq, cmdq, now, nq, rx, gone, m, left, dropped, hold>>

EnvNext ==
  \/ \E n \in CmdSet : Call(n)
  \/ \E n \in PktSet : BrokerSend(n)
  \/ \E h \in Ends \ {"kill"} : BrokerEnd(h)
  \/ Kill
  \/ DropAll \/ DropRx \/ SetHold
  \/ \E d \in {KA \div 2, KA} : Advance(d)

Next == Loop \/ Take \/ TakeEnd \/ Settle \/ EnvNext
Spec == SessionInit /\ [][Next]_vars
Fair == Spec /\ WF_vars(Loop) /\ WF_vars(Take) /\ WF_vars(TakeEnd) /\ SF_vars(Settle)
View == <<pc, then, inq, cmdq, used, pong, tick, now, nq, rx, gone, res, m, left, dropped, hold, run>>
-----------------------------------------------------------------------------
NoViolation == \A v \in m.viol : v[1] \notin Watch

(* the observer agrees with the loop on what the loop knows *)
Agree ==
  /\ (pc = "done") <=> (m.done # "no")
  /\ ~m.lax /\ m.hs = "live" /\ Bug = "none" =>
       \A id \in 1..IdMax : InIv(m.infl, id) /\ ~InIv(m.maybe, id) => id \in used
  /\ Len(nq) <= NoteCap + 1
  /\ Cardinality(used) <= IdMax

(* Liveness, under Fair: the environment may do nothing more at any moment, and
   does nothing more once its budgets are spent. *)
(* left alone, the client comes to rest with nothing due *)
ComesToRest == <>[]Quiescent
(* an accepted command is transmitted, or waits for an identifier, for the handshake or
   for the application to take a notification, or the connection is over *)
CommandsMove == \A n \in 1..NCmds :
  (Len(cmdq) >= n /\ pc = "idle") ~>
     (Len(cmdq) < n \/ pc \in {"done", "greet"} \/ ~HasVacant \/ hold)
(* what the broker sends is handled *)
PacketsMove == \A n \in 1..NPkts + 1 :
  (Len(inq) >= n) ~> (Len(inq) < n \/ pc = "done" \/ hold)
(* the loop never waits for a consumer that takes, and its end is seen *)
NotesMove == /\ (pc = "room") ~> (pc # "room" \/ hold)
             /\ (pc = "done") ~> (m.nend \/ hold \/ ~rx)
=============================================================================
