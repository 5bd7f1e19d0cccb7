------------------------------ MODULE Connect ------------------------------
(***************************************************************************)
(* From Client::new to the connection (C24).  The client was given N       *)
(* addresses (a name, or a slice of them); a broker may come to listen at  *)
(* each before the event loop is first polled.  Creating a client does     *)
(* nothing; driving the event loop tries the addresses in turn and keeps   *)
(* the first connection it gets, for good.  Commands may be accepted all   *)
(* along and are transmitted once there is a connection.                   *)
(*                                                                         *)
(* env is what the environment did; every finished behaviour prints it, so *)
(* that all of them run on the real client (family connect), with sockets  *)
(* of their own for the addresses.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Cap, MaxEnv, Bug

VARIABLES up,      \* addresses where a broker listens
          loop,    \* new, trying, up, failed, over (ended by the broker), gone (dropped)
          at,      \* the address to try next
          conns,   \* the connections brokers have seen, in order
          handles, queued, sent,
          env
vars == <<up, loop, at, conns, handles, queued, sent, env>>

Init == /\ up = {} /\ loop = "new" /\ at = 1 /\ conns = <<>> /\ handles = TRUE
        /\ queued = 0 /\ sent = 0 /\ env = <<>>

Do(a) == Len(env) < MaxEnv /\ env' = Append(env, a)
Driven == \E i \in 1..Len(env) : env[i][1] = "poll"

Listen(i) == /\ loop = "new" /\ ~Driven /\ (\A j \in up : j < i) /\ Do(<<"listen", i>>)
             /\ up' = up \cup {i} /\ UNCHANGED <<loop, at, handles, queued, sent>>
             /\ conns' = IF Bug = "eager" /\ conns = <<>> THEN <<i>> ELSE conns
Calls == /\ handles /\ loop \notin {"trying"} /\ Do(<<"call">>)
         /\ queued' = IF loop \in {"new", "up"} /\ queued < Cap THEN queued + 1 ELSE queued
         /\ UNCHANGED <<up, loop, at, conns, handles, sent>>
Drop == /\ handles /\ loop \in {"new", "up"} /\ Do(<<"dropall">>) /\ handles' = FALSE
        /\ UNCHANGED <<up, loop, at, conns, queued, sent>>
Kill == /\ loop \in {"new", "up"} /\ Do(<<"kill">>) /\ loop' = "gone" /\ queued' = 0
        /\ UNCHANGED <<up, at, conns, handles, sent>>
Drive == /\ loop = "new" /\ ~Driven /\ Do(<<"poll">>) /\ loop' = "trying"
         /\ UNCHANGED <<up, at, conns, handles, queued, sent>>
Fin == /\ loop = "up" /\ Do(<<"fin">>) /\ loop' = "over" /\ queued' = 0
       /\ UNCHANGED <<up, at, conns, handles, sent>>

Try == /\ loop = "trying" /\ UNCHANGED <<up, handles, queued, sent, env>>
       /\ IF at > N \/ (Bug = "firstonly" /\ at > 1) THEN loop' = "failed" /\ UNCHANGED <<at, conns>>
          ELSE /\ at' = at + 1
               /\ IF at \in up THEN /\ conns' = Append(conns, at)
                                    /\ loop' = IF Bug = "both" /\ at < N THEN "trying" ELSE "up"
                  ELSE UNCHANGED <<conns, loop>>
Send == /\ loop = "up" /\ queued > 0 /\ queued' = queued - 1 /\ sent' = sent + 1
        /\ UNCHANGED <<up, loop, at, conns, handles, env>>
Again == /\ Bug = "again" /\ loop = "over" /\ Len(conns) = 1 /\ conns' = Append(conns, conns[1])
         /\ UNCHANGED <<up, loop, at, handles, queued, sent, env>>

Loop == Try \/ Send \/ Again
Next == \/ Loop
        \/ /\ ~ENABLED Loop
           /\ \/ \E i \in 1..N : Listen(i)
              \/ Calls \/ Drop \/ Kill \/ Drive \/ Fin
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop)

Lazy == conns # <<>> => Driven
OneOnly == Len(conns) <= 1
There == \A i \in 1..Len(conns) : conns[i] \in up
FailsOnlyIfNone == loop = "failed" => up = {}
Delivered == loop = "up" /\ ~ENABLED Loop => queued = 0
Connects == (loop = "trying" /\ up # {}) ~> (conns # <<>>)
Decides == (loop = "trying") ~> (loop # "trying")

(* every behaviour that is worth running *)
Whole == ~ENABLED Loop /\ (Driven \/ loop = "gone") /\ (Len(env) = MaxEnv \/ env[Len(env)][1] \in {"poll", "kill", "fin"})
Out == Whole => PrintT("ACTS " \o ToJson(env))
=============================================================================
