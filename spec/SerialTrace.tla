---------------------------- MODULE SerialTrace ----------------------------
(***************************************************************************)
(* Is a recorded execution of the real client a behaviour of EventLoop,    *)
(* that is, explained by handling stimuli one at a time, completely (C20)? *)
(* Each initial state is one recorded scenario.  Its lines are taken in    *)
(* order: stimuli are fed to the loop; what the client was seen to write,  *)
(* notify or return must be what the loop does by then; when the harness   *)
(* found the client at rest the loop must be at rest too, everything it    *)
(* did having been seen.  The loop chooses freely among what it can        *)
(* handle.  <<"OK", s>> is printed once scenario s is explained.           *)
(***************************************************************************)
EXTENDS EventLoop, RuqObs, Json, IOUtils

VARIABLES s, l,       \* scenario, lines taken
          ew, en,     \* packets written and notes pushed by the loop so far
          ow, on,     \* those seen so far
          reading, drain,
          tail,       \* there is an incomplete packet
          early,      \* it cannot become a good one
          owe         \* a PUBACK the loop writes once there is room
lv == <<pc, then, inq, cmdq, used, pong, tick, now, ka, nq, rx, gone, res, wrote, pushed>>
ov == <<s, l, ow, on, reading, drain, tail, early>>
vars == <<pc, then, inq, cmdq, used, pong, tick, now, ka, nq, rx, gone, res, wrote, pushed,
          s, l, ew, en, ow, on, reading, drain, tail, early, owe>>

Sc == ndJsonDeserialize(IOEnv.TRACE)     \* [id, lines, w, n, refused, lost, deaf]
W == Sc[s].w
N == Sc[s].n
(* the scenario's broker closed its socket, or the client's was reset *)
MayLose == gone \/ Sc[s].lost

KaOf(w) == IF w = <<>> THEN 8000 ELSE LET d == DecC(w[1]) IN IF d.ok /\ d.ty = 1 THEN d.ka * 1000 ELSE 8000
SInit ==
  /\ s \in 1..Len(Sc)
  /\ LoopInit(KaOf(Sc[s].w))
  /\ l = 0 /\ ew = 0 /\ en = 0 /\ ow = 0 /\ on = 0
  /\ reading = TRUE /\ drain = TRUE /\ tail = FALSE /\ early = FALSE /\ owe = <<>>

(* what was written is what the loop wrote.  How it is encoded is judged by *)
(* C04: here it is enough that it is that packet                           *)
SameWire(p, w) ==
  \/ p = w
  \/ LET a == DecC(p) b == DecC(w) IN
     IF ~b.ok THEN w # <<>> /\ Hd(p) \div 16 = Hd(w) \div 16
     ELSE /\ a.ty = b.ty
          /\ a.ty \in {3, 4, 8, 10} => a.id = b.id
          /\ a.ty \in {3, 8, 10} => a.topic = b.topic
          /\ a.ty = 3 => a.pl = b.pl
SameNote(n, x) ==
  /\ n.k = x.k
  /\ "raw" \notin DOMAIN x => /\ n.id = x.id
                              /\ n.k = "message" => n.topic = x.topic /\ n.pl = x.pl
Fits ==
  /\ ew' = ew + Len(wrote') /\ en' = en + Len(pushed')
  /\ \A k \in 1..Len(wrote') : IF ew + k <= Len(W) THEN SameWire(wrote'[k], W[ew + k]) ELSE MayLose
  /\ \A k \in 1..Len(pushed') : IF en + k <= Len(N) THEN SameNote(pushed'[k], N[en + k]) ELSE Sc[s].deaf
-----------------------------------------------------------------------------
(* the identifier the client used, as far as it can be seen *)
NextIdSeen == IF ew < Len(W) THEN LET d == DecC(W[ew + 1]) IN IF d.ok /\ d.ty \in {3, 8, 10} THEN d.id ELSE 0
              ELSE 0
AnyVacant == CHOOSE i \in 1..(Cardinality(used) + 1) : i \notin used
Command ==
  /\ cmdq # <<>>
  /\ HandleCommand(IF ~NeedsId(Head(cmdq)) THEN 0
                   ELSE IF ew < Len(W) THEN NextIdSeen
                   ELSE IF HasVacant THEN AnyVacant ELSE 0)
(* the other order: first the notification, once that is taken the PUBACK *)
NoteFirst ==
  /\ HandlePacket /\ wrote' # <<>> /\ pc' = "room"
(* a connection that the broker closed with data unread is reset *)
ResetByClose ==
  /\ pc \in {"greet", "idle", "room"} /\ gone
  /\ \E i \in 1..Len(inq) : inq[i].k = "end" /\ inq[i].how \in {"rst", "close"}
  /\ Finish("err") /\ Quiet
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars
EarlyErr ==
  /\ early /\ inq = <<>> /\ pc \in {"greet", "idle"} /\ Finish("err") /\ Quiet
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars
(* a write can also fail in the middle of a handler *)
FailInRoom ==
  /\ pc = "room" /\ owe # <<>> /\ gone /\ Finish("err") /\ Quiet
  /\ UNCHANGED <<then, inq, cmdq, used, pong, tick, nq>> /\ UNCHANGED envvars

LoopStep ==
  \/ /\ \/ IF W = <<>> THEN Refuse \/ (MayLose /\ Connected(<<<<16, 1>>>>)) ELSE Connected(W[1])
        \/ pc = "dial" /\ Sc[s].refused /\ Refuse
        \/ Greet \/ HandlePacket \/ HandleTick \/ Command
        \/ (pc = "idle" /\ WriteFails) \/ ResetByClose \/ EarlyErr \/ FailInRoom
     /\ owe' = <<>> /\ Fits
  \/ RoomMade /\ owe' = <<>> /\ ew' = ew + Len(owe) /\ en' = en
     /\ \A k \in 1..Len(owe) : IF ew + k <= Len(W) THEN SameWire(owe[k], W[ew + k]) ELSE MayLose
  \/ /\ NoteFirst /\ owe' = wrote'
     /\ ew' = ew /\ en' = en + Len(pushed')
     /\ \A k \in 1..Len(pushed') : IF en + k <= Len(N) THEN SameNote(pushed'[k], N[en + k]) ELSE Sc[s].deaf
-----------------------------------------------------------------------------
Line == Sc[s].lines[l + 1]
NotDone == pc # "done"
NearIdle ==
  /\ pc = "idle" /\ inq = <<>> /\ now < tick + Slack
  /\ cmdq = <<>> \/ ~HasVacant
AtRest ==
  /\ Idle \/ ~reading \/ NearIdle
  /\ reading => \/ ew = ow \/ MayLose
  /\ drain /\ rx => en = on \/ ~reading
Ready ==
  LET e == Line IN
  e.t <= now /\
  CASE e.e = "Wire" -> ew > ow
    [] e.e = "Notif" -> en > on
    [] e.e = "Settle" -> AtRest
    [] e.e = "Done" -> pc = "done" /\ (res = "ok") = e.ok
    [] e.e \in {"NEnd", "WireEof"} -> pc = "done" \/ gone
    [] e.e = "End" -> TRUE
    [] e.e \in {"Panic", "Hang", "Spin"} -> FALSE
    [] OTHER -> TRUE

Take ==
  LET e == Line IN
  /\ l' = l + 1 /\ UNCHANGED <<s, ew, en, owe>>
  /\ UNCHANGED <<now, pc, then, used, pong, tick, ka, res, wrote, pushed>>
  /\ ow' = IF e.e = "Wire" THEN ow + 1 ELSE ow
  /\ on' = IF e.e = "Notif" THEN on + 1 ELSE on
  /\ nq' = IF e.e = "Notif" /\ nq # <<>> THEN Tail(nq) ELSE IF e.e = "DropRx" THEN <<>> ELSE nq
  /\ rx' = (rx /\ e.e # "DropRx")
  /\ reading' = IF e.e \in {"Mode", "Settle"} THEN e.reading ELSE reading
  /\ drain' = IF e.e \in {"Mode", "Settle"} THEN e.drain ELSE drain
  /\ cmdq' = IF e.e = "Call" /\ e.ok THEN Append(cmdq, CmdOf(e)) ELSE cmdq
  /\ tail' = IF e.e = "BSend" THEN e.tl > 0 ELSE tail
  /\ early' = IF e.e = "BSend" THEN Hopeless(e.th) ELSE early
  /\ gone' = (gone \/ (e.e = "BEnd" /\ e.how # "fin"))
  /\ inq' = CASE e.e = "BSend" -> inq \o [i \in 1..Len(e.fr) |-> [k |-> "pkt", f |-> e.fr[i]]]
              [] e.e = "BEnd" -> Append(inq, [k |-> "end", how |-> IF tail /\ e.how = "fin" THEN "mid" ELSE e.how])
              [] OTHER -> inq

(* time passes: the loop need not have handled everything before *)
Elapse == /\ Line.t > now /\ now' = Line.t
          /\ UNCHANGED <<pc, then, inq, cmdq, used, pong, tick, ka, nq, rx, gone, res, wrote, pushed, ew, en, owe>>
          /\ UNCHANGED ov

(* a packet the protocol forbids but the client may accept: no verdict *)
Lax == pc \in {"greet", "idle"} /\ inq # <<>> /\ Head(inq).k = "pkt" /\ DecS(Head(inq).f).v = "lax"
Over == l = Len(Sc[s].lines) \/ Lax
SNext == ~Over /\ (IF Ready THEN Take ELSE (LoopStep /\ UNCHANGED ov) \/ Elapse)
SSpec == SInit /\ [][SNext]_vars
Explained == Over => PrintT(<<"OK", s>>) /\ TLCSet(s, TRUE)
(* one explanation is enough: with a depth-first queue the rest is skipped *)
ASSUME \A i \in 1..Len(Sc) : TLCSet(i, FALSE)
NotYet == ~TLCGet(s)
=============================================================================
