------------------------------ MODULE LenTrace ------------------------------
(* What `len` and `is_empty` may return in a recorded behaviour of a map.    *)
(* Whenever no modifying operation is in progress, the length is exactly the *)
(* number of entries; while operations run it stays between zero and the     *)
(* number of insertions that were ever started.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  tr, pos,
  running,   \* modifying operations in progress
  started,   \* number of operations that may insert started so far
  known,     \* whether the results so far determine the number of entries
  count,     \* that number
  asks,      \* calls of len and is_empty in progress that nothing has disturbed
  present,   \* the number of keys that the final lookups found
  phase,
  ok

vars == <<tr, pos, running, started, known, count, asks, present, phase, ok>>

(* Events: <<1, id, may insert>> a modifying operation is called, <<2, id, change, known>> it     *)
(* returns; <<3, id>> len or is_empty is called, <<4, id, is_empty, result>> it returns;          *)
(* <<5, found>> a final lookup; <<6, phase>> 1: the threads start, 2: all threads are done; <<9>>.*)
T == Traces[tr]

Init ==
  /\ tr \in 1..Len(Traces) /\ pos = 0 /\ running = {} /\ started = 0 /\ known = TRUE
  /\ count = 0 /\ asks = {} /\ present = 0 /\ phase = 0 /\ ok = TRUE

Answer(e, n) == IF e[3] = 1 THEN e[4] = (IF n = 0 THEN 1 ELSE 0) ELSE e[4] = n

Read ==
  /\ pos < Len(T)
  /\ pos' = pos + 1
  /\ UNCHANGED tr
  /\ LET e == T[pos + 1] IN
     CASE e[1] = 1 ->
            /\ running' = running \cup {e[2]}
            /\ started' = started + e[3]
            /\ asks' = {}
            /\ UNCHANGED <<known, count, present, phase, ok>>
       [] e[1] = 2 ->
            /\ running' = running \ {e[2]}
            /\ count' = count + e[3]
            /\ known' = (known /\ e[4] = 1)
            \* A length that was read while the operation was running may be of any time.
            /\ asks' = {}
            /\ UNCHANGED <<started, present, phase, ok>>
       [] e[1] = 3 ->
            /\ asks' = IF running = {} THEN asks \cup {e[2]} ELSE asks
            /\ UNCHANGED <<running, started, known, count, present, phase, ok>>
       [] e[1] = 4 ->
            /\ ok' = (ok
                  /\ (e[3] = 0 => e[4] >= 0 /\ e[4] <= started)
                  /\ (e[2] \in asks /\ known => Answer(e, count))
                  /\ (phase = 2 => Answer(e, present)))
            /\ asks' = asks \ {e[2]}
            /\ UNCHANGED <<running, started, known, count, present, phase>>
       [] e[1] = 5 ->
            /\ present' = present + e[2]
            /\ UNCHANGED <<running, started, known, count, asks, phase, ok>>
       [] e[1] = 6 ->
            /\ phase' = e[2]
            /\ UNCHANGED <<running, started, known, count, asks, present, ok>>
       [] OTHER ->
            /\ ok' = (ok /\ running = {})
            /\ UNCHANGED <<running, started, known, count, asks, present, phase>>

Spec == Init /\ [][Read]_vars
Conforms == ok
=============================================================================
