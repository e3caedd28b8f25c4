----------------------------- MODULE SizeTrace -----------------------------
(* The tables that a map allocates, in relation to the entries in it.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  tr, pos,
  created,   \* the capacity requested at creation
  first,     \* the size of the table allocated at creation
  room,      \* the number of entries that must fit without a further table
  live,      \* the number of entries
  max,       \* the largest number of entries, or requested, so far
  used,      \* whether something was inserted
  removed,   \* whether something was removed
  tables,    \* the memory in tables
  phase, ok, fits

vars == <<tr, pos, created, first, room, live, max, used, removed, tables, phase, ok, fits>>

CREATE == 1  RESERVE == 2  ALLOC == 3  FREE == 4  INSERT == 5  REMOVE == 6  OBJECTS == 7  PANIC == 8

BY_CREATE == 0  BY_INSERT == 1  BY_RESERVE == 2  BY_READ == 3

T == Traces[tr]
Max(a, b) == IF a > b THEN a ELSE b

(* The size of a table is at most proportional to the largest number of      *)
(* entries: a slot takes nine bytes, and there are at most eight slots for   *)
(* each entry that there was or that was asked for.                          *)
Bound == 9 * 8 * Max(max, 8) + 1024

Init ==
  /\ tr \in 1..Len(Traces) /\ pos = 0
  /\ created = 0 /\ first = 0 /\ room = 0 /\ live = 0 /\ max = 0 /\ used = FALSE /\ removed = FALSE
  /\ tables = 0 /\ phase = 0 /\ ok = TRUE /\ fits = TRUE

Read ==
  /\ pos < Len(T)
  /\ UNCHANGED tr
  /\ pos' = pos + 1
  /\ LET e == T[pos + 1]
         n == e[2]
     IN
     CASE e[1] = CREATE ->
            /\ created' = n
            /\ room' = IF e[3] = 1 THEN n ELSE 0
            /\ max' = n
            /\ UNCHANGED <<first, live, used, removed, tables, phase, ok, fits>>
       [] e[1] = RESERVE ->
            /\ room' = IF e[3] = 1 /\ ~removed THEN Max(room, n) ELSE room
            /\ max' = Max(max, live + n)
            /\ UNCHANGED <<created, first, live, used, removed, tables, phase, ok, fits>>
       [] e[1] = ALLOC ->
            /\ first' = IF e[3] = BY_CREATE THEN Max(first, n) ELSE first
            /\ tables' = tables + n
            \* Capacity requests are honoured.
            /\ fits' = (fits
                  /\ (e[3] = BY_CREATE => created > 0)
                  /\ (e[3] = BY_INSERT => room <= 0)
                  /\ (e[3] = BY_READ /\ created = 0 => used)
                  /\ (created > 0 => n >= first'))
            \* Tables are proportional to the entries. An insertion in progress counts.
            /\ ok' = (ok /\ n <= 9 * 8 * Max(Max(max, live + 1), 8) + 1024)
            /\ UNCHANGED <<created, room, live, max, used, removed, phase>>
       [] e[1] = FREE ->
            /\ tables' = tables - n
            /\ UNCHANGED <<created, first, room, live, max, used, removed, phase, ok, fits>>
       [] e[1] = INSERT ->
            /\ live' = live + n
            /\ room' = room - n
            /\ max' = Max(max, live + n)
            /\ used' = TRUE
            \* Few tables exist at a time: the current one, the ones of resizes in progress, and
            \* old ones that are about to be reclaimed.
            /\ ok' = (ok /\ tables <= 4 * Bound)
            /\ UNCHANGED <<created, first, removed, tables, phase, fits>>
       [] e[1] = REMOVE ->
            /\ live' = live - n
            /\ removed' = TRUE
            /\ ok' = (ok /\ live >= n)
            /\ UNCHANGED <<created, first, room, max, used, tables, phase, fits>>
       [] e[1] = OBJECTS ->
            \* Removed entries are released, at the latest with the next batch and when the resize
            \* that still refers to them is over.
            /\ ok' = (ok /\ n <= live + 2 * max + 64 /\ e[3] <= live + 2 * max + 64 /\ tables <= 4 * Bound)
            /\ UNCHANGED <<created, first, room, live, max, used, removed, tables, phase, fits>>
       [] e[1] = PANIC ->
            /\ ok' = FALSE /\ fits' = FALSE
            /\ UNCHANGED <<created, first, room, live, max, used, removed, tables, phase>>
       [] OTHER ->
            /\ ok' = (ok /\ tables = 0)
            /\ UNCHANGED <<created, first, room, live, max, used, removed, tables, phase, fits>>

Spec == Init /\ [][Read]_vars
Honoured == fits
Bounded == ok
=============================================================================
