------------------------------ MODULE RuqTrace ------------------------------
(***************************************************************************)
(* The observer of RuqObs evaluated along recorded traces of the real      *)
(* client (many scenarios in one file, each from Begin to End).  Every     *)
(* violation is printed as <<"VIOL", property, scenario, reason, line>>;   *)
(* the postcondition makes sure that every line was judged.                *)
(***************************************************************************)
EXTENDS RuqObs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, m
TraceInit == l = 0 /\ m = Init0
Say(new, e) == \A v \in new : PrintT(<<"VIOL", v[1], m.id, v[2], l + 1>>)
TraceNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] x == Obs(m, e) IN
       /\ m' = x
       /\ Say(IF e.e = "Begin" THEN {} ELSE x.viol \ m.viol, e)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, m>>
View == l
Accepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ PrintT(<<"JUDGED", Len(Trace)>>)
=============================================================================
