----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* Schedules for the harness: behaviours of Session with Batch = TRUE, in  *)
(* which the environment acts while the client waits, then lets it run     *)
(* until it is idle.  acts records what the environment did; a finished    *)
(* schedule is printed as <<"ACTS", acts>>.  Used with -simulate (random   *)
(* behaviours) and breadth first (every schedule within the bounds).       *)
(***************************************************************************)
EXTENDS Session, Json

CONSTANTS Start,    \* "any", "run" or "live": how the schedule begins
          Late      \* nothing ends the connection before most packets were sent

VARIABLES acts, fin
gvars == <<pc, then, inq, cmdq, used, pong, tick, now, ka, nq, rx, gone, res, wrote, pushed,
          m, left, dropped, hold, run, acts, fin>>

Prefix == CASE Start = "run" -> <<<<"run">>>>
            [] Start = "live" -> <<<<"run">>, <<"pkt", "connack">>, <<"run">>>>
            [] OTHER -> <<>>
Do(a) == /\ Len(acts) < Len(Prefix) => a = Prefix[Len(acts) + 1]
         /\ acts' = Append(acts, a)
Lethal == {"refused", "bad", "auth", "m2", "dok", "derr"}
Now(n) == (n \in Lethal \/ (n = "connack" /\ m.hs # "wait")) /\ Late => left.p <= 1
GenInit == SessionInit /\ acts = <<>> /\ fin = FALSE
GenNext ==
  /\ ~fin
  /\ \/ /\ UNCHANGED fin
        /\ \/ Loop /\ (IF run THEN UNCHANGED acts ELSE Do(<<"run">>))
           \/ (Take \/ TakeEnd \/ Stop \/ Settle) /\ UNCHANGED acts
           \/ \E n \in CmdSet : Call(n) /\ Do(<<"call", n>>)
           \/ \E n \in PktSet : Now(n) /\ BrokerSend(n) /\ Do(<<"pkt", n>>)
           \/ \E h \in Ends \ {"kill"} : (Late => left.p <= 1) /\ BrokerEnd(h) /\ Do(<<"end", h>>)
           \/ Kill /\ Do(<<"kill">>)
           \/ DropAll /\ Do(<<"dropall">>)
           \/ DropRx /\ Do(<<"droprx">>)
           \/ SetHold /\ Do(<<IF hold THEN "drain" ELSE "hold">>)
           \/ \E d \in {KA \div 2, KA} : Advance(d) /\ Do(<<"adv", d>>)
     \/ /\ (left.p = 0 /\ left.c = 0) \/ (m.causes # {} /\ acts[Len(acts)][1] = "run")
        /\ ~run /\ Quiescent /\ Len(acts) > Len(Prefix) + 2
        /\ fin' = TRUE
        /\ UNCHANGED <<pc, then, inq, cmdq, used, pong, tick, now, ka, nq, rx, gone, res, wrote, pushed,
                       m, left, dropped, hold, run, acts>>
GenSpec == GenInit /\ [][GenNext]_gvars
GenView == <<pc, then, inq, cmdq, used, pong, tick, now, nq, rx, gone, res, left, dropped, hold, run, acts, fin>>
Out == fin => PrintT("ACTS " \o ToJson(acts))
ASSUME \A n \in PktSet : PrintT("PKT " \o ToJson(<<n, PktOfName(n)>>))
ASSUME \A n \in CmdSet : PrintT("CMD " \o ToJson(<<n, CmdOfName(n)>>))
=============================================================================
