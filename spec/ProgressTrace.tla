--------------------------- MODULE ProgressTrace ----------------------------
(* Progress in a recorded behaviour.  Completes: every operation that was    *)
(* called returns, without an undocumented panic, although the scheduler ran *)
(* every thread again and again.  WaitFree: lookups never wait for another   *)
(* thread, and take a number of steps that depends on the tables alone.      *)
(* NonBlocking: an operation waits for another thread only if the map was    *)
(* resized while it ran.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos,
  pending,   \* {<<id, operation>>} operations in progress
  tables,    \* the number of tables that were ever allocated
  live,      \* the tables that are neither retired nor freed
  resized,   \* operations during which there was more than one such table
  waited,    \* operations that waited
  completes, waitfree, nonblocking

vars == <<tr, pos, pending, tables, live, resized, waited, completes, waitfree, nonblocking>>

Lookups == {1, 2, 3, 21, 22}   \* get, get_key_value, contains_key, len, is_empty

Refusing == {12, 23}   \* compute and reserve have documented panics

\* A lookup probes every table at most once, and reads a few words for each probe.
Bound(n) == 60 + 160 * n

(* Events: <<1, id, op>> invocation; <<2, id, op, kind>> result; <<3, id>> the operation waited:  *)
(* it parked, spun, found a lock taken, or looped on its own until the scheduler gave up;         *)
(* <<4, id, op, steps>> its own steps; <<5, table>> a table was allocated; <<6>> no thread can    *)
(* continue, or none returns; <<7, table>> a table was retired or freed; <<9>> end.               *)
T == Traces[tr]

Ids(s) == {x[1] : x \in s}

Init ==
  /\ tr \in 1..Len(Traces) /\ pos = 0 /\ pending = {} /\ tables = 0
  /\ live = {} /\ resized = {} /\ waited = {}
  /\ completes = TRUE /\ waitfree = TRUE /\ nonblocking = TRUE

Read ==
  /\ pos < Len(T)
  /\ pos' = pos + 1
  /\ UNCHANGED tr
  /\ LET e == T[pos + 1] IN
     CASE e[1] = 1 ->
            /\ pending' = pending \cup {<<e[2], e[3]>>}
            /\ resized' = IF Cardinality(live) > 1 THEN resized \cup {e[2]} ELSE resized
            /\ UNCHANGED <<tables, live, waited, completes, waitfree, nonblocking>>
       [] e[1] = 2 ->
            /\ pending' = {x \in pending : x[1] # e[2]}
            /\ completes' = (completes /\ e[4] # 7 /\ (e[4] = 8 => e[3] \in Refusing))
            /\ nonblocking' = (nonblocking /\ (e[2] \in waited => e[2] \in resized \/ e[4] = 8))
            /\ UNCHANGED <<tables, live, resized, waited, waitfree>>
       [] e[1] = 3 ->
            /\ waitfree' = (waitfree /\ \A x \in pending : x[1] = e[2] => x[2] \notin Lookups)
            /\ waited' = waited \cup {e[2]}
            /\ UNCHANGED <<pending, tables, live, resized, completes, nonblocking>>
       [] e[1] = 4 ->
            /\ waitfree' = (waitfree /\ (e[3] \in Lookups => e[4] <= Bound(tables)))
            /\ UNCHANGED <<pending, tables, live, resized, waited, completes, nonblocking>>
       [] e[1] = 5 ->
            /\ tables' = tables + 1
            /\ live' = live \cup {e[2]}
            /\ resized' = IF Cardinality(live') > 1 THEN resized \cup Ids(pending) ELSE resized
            /\ UNCHANGED <<pending, waited, completes, waitfree, nonblocking>>
       [] e[1] = 6 ->
            /\ completes' = FALSE
            /\ UNCHANGED <<pending, tables, live, resized, waited, waitfree, nonblocking>>
       [] e[1] = 7 ->
            /\ live' = live \ {e[2]}
            /\ UNCHANGED <<pending, tables, resized, waited, completes, waitfree, nonblocking>>
       [] OTHER ->
            /\ completes' = (completes /\ pending = {})
            /\ UNCHANGED <<pending, tables, live, resized, waited, waitfree, nonblocking>>

Spec == Init /\ [][Read]_vars
Completes == completes
WaitFree == waitfree
NonBlocking == nonblocking
=============================================================================
