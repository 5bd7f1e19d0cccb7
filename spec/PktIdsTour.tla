----------------------------- MODULE PktIdsTour -----------------------------
(***************************************************************************)
(* PktIds with the last operation in the state, so that the state graph    *)
(* TLC dumps says which operation each of its edges is: 0 for a request, n *)
(* for the return of n.  The runner walks every edge, on the real client.  *)
(***************************************************************************)
EXTENDS PktIds
VARIABLE op
TourInit == Init /\ op = 0
TourNext == \/ NextId /\ op' = 0
            \/ \E id \in 1..Max : ReturnId(id) /\ op' = id
TourSpec == TourInit /\ [][TourNext]_<<vars, op>>
TourView == <<ranges, start, used, op>>
=============================================================================
