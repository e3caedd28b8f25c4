---------------------------- MODULE ReclaimTrace ----------------------------
(* The life of every key, value and table in a recorded behaviour: an object *)
(* is dropped exactly once, never while a guard holds a reference to it, and *)
(* never used afterwards; a table is freed exactly once and never accessed   *)
(* afterwards; and nothing is left after the map was dropped.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  tr, pos,
  live,    \* objects that were created and not dropped
  dead,    \* the highest number of an object created so far (objects are numbered in order)
  refs,    \* {<<guard, object>>} references held
  tables,  \* tables that were allocated and not freed
  held,    \* {<<guard, thread>>} guards that exist
  shield,  \* {<<thread, retired>>} threads that have held a guard since an entry or table was retired
  safe,    \* no object or table was used after it was released, or released while in use
  once,    \* no object or table was released twice
  left     \* nothing is left in the end

vars == <<tr, pos, live, dead, refs, tables, held, shield, safe, once, left>>

(* Events: <<1, object>> created; <<2, guard, object>> a reference was obtained; <<3, guard>> the *)
(* guard was dropped or refreshed; <<4, object>> dropped; <<5, object>> a dead object was read;   *)
(* <<6, table>> allocated; <<7, table>> freed; <<8, table>> accessed although freed;              *)
(* <<9, tables left, allocations left, 1 if a call panicked>> the map was dropped (a call that    *)
(* panics may leave its own key and value behind);                                                *)
(* <<10, entry or table>> handed to the collector; <<11, guard, thread>> a guard was created;     *)
(* <<12, entry or table, thread>> read after it was handed to the collector.  The collector frees *)
(* it once no thread has held a guard without interruption since then, at any time it likes: only *)
(* such a thread may read it.                                                                     *)
T == Traces[tr]

Init ==
  /\ tr \in 1..Len(Traces) /\ pos = 0 /\ live = {} /\ dead = 0 /\ refs = {} /\ tables = {}
  /\ held = {} /\ shield = {}
  /\ safe = TRUE /\ once = TRUE /\ left = TRUE

Read ==
  /\ pos < Len(T)
  /\ pos' = pos + 1
  /\ UNCHANGED tr
  /\ LET e == T[pos + 1]
         rest == {h \in held : h[1] # e[2]}
         owners == {h[2] : h \in rest}
     IN
     /\ held' = CASE e[1] = 11 -> held \cup {<<e[2], e[3]>>}
                  [] e[1] = 3 -> rest
                  [] OTHER -> held
     /\ shield' = CASE e[1] = 10 -> shield \cup {<<h[2], e[2]>> : h \in held}
                    [] e[1] = 3 -> {s \in shield : s[1] \in owners}
                    [] OTHER -> shield
     /\ CASE e[1] = 1 ->
               /\ live' = live \cup {e[2]}
               /\ dead' = e[2]
               /\ UNCHANGED <<refs, tables, safe, once, left>>
          [] e[1] = 2 ->
               /\ refs' = refs \cup {<<e[2], e[3]>>}
               /\ safe' = (safe /\ e[3] \in live)
               /\ UNCHANGED <<live, dead, tables, once, left>>
          [] e[1] = 3 ->
               /\ refs' = {r \in refs : r[1] # e[2]}
               /\ UNCHANGED <<live, dead, tables, safe, once, left>>
          [] e[1] = 4 ->
               /\ live' = live \ {e[2]}
               /\ safe' = (safe /\ \A r \in refs : r[2] # e[2])
               /\ once' = (once /\ e[2] \in live)
               /\ UNCHANGED <<dead, refs, tables, left>>
          [] e[1] = 5 ->
               /\ safe' = FALSE
               /\ UNCHANGED <<live, dead, refs, tables, once, left>>
          [] e[1] = 6 ->
               /\ tables' = tables \cup {e[2]}
               /\ UNCHANGED <<live, dead, refs, safe, once, left>>
          [] e[1] = 7 ->
               /\ tables' = tables \ {e[2]}
               /\ once' = (once /\ e[2] \in tables)
               /\ UNCHANGED <<live, dead, refs, safe, left>>
          [] e[1] = 8 ->
               /\ safe' = FALSE
               /\ UNCHANGED <<live, dead, refs, tables, once, left>>
          [] e[1] = 12 ->
               /\ safe' = (safe /\ <<e[3], e[2]>> \in shield)
               /\ UNCHANGED <<live, dead, refs, tables, once, left>>
          [] e[1] \in {10, 11} ->
               UNCHANGED <<live, dead, refs, tables, safe, once, left>>
          [] OTHER ->
               /\ left' = (left /\ (live = {} \/ e[4] = 1) /\ tables = {} /\ e[2] = 0 /\ e[3] = 0)
               /\ UNCHANGED <<live, dead, refs, tables, safe, once>>

Spec == Init /\ [][Read]_vars
Safe == safe
Once == once
Left == left
=============================================================================
