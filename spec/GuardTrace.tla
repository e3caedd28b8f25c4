----------------------------- MODULE GuardTrace -----------------------------
(* Calls with guards: a map is a collector with a content; a guard belongs to *)
(* a collector.  A call with a guard of another collector panics before it    *)
(* reads or changes anything.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, content, foreign, ok
vars == <<tr, pos, content, foreign, ok>>

(* Events: <<1, whether the guard is of another collector, content>> before;  *)
(* <<2, set, method, panicked, tables allocated, calls of closures,           *)
(* comparisons of stored keys, content>> after the call.                      *)
T == Traces[tr]

Init == tr \in 1..Len(Traces) /\ pos = 0 /\ content = << >> /\ foreign = 0 /\ ok = TRUE

Rejected(e) == e[4] = 1 /\ e[5] = 0 /\ e[6] = 0 /\ e[7] = 0 /\ e[8] = content
Accepted(e) == e[4] = 0 /\ Len(e[8]) > 0

Read ==
  /\ pos < Len(T)
  /\ UNCHANGED tr
  /\ pos' = pos + 1
  /\ LET e == T[pos + 1] IN
     IF e[1] = 1
       THEN /\ foreign' = e[2]
            /\ content' = e[3]
            /\ ok' = (ok /\ Len(e[3]) > 0)
       ELSE /\ ok' = (ok /\ (IF foreign = 1 THEN Rejected(e) ELSE Accepted(e)))
            /\ content' = e[8]
            /\ UNCHANGED foreign

Spec == Init /\ [][Read]_vars
Conforms == ok
=============================================================================
