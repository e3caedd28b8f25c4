------------------------------ MODULE SeqTrace ------------------------------
(* A recorded sequential history of the real code is a behaviour of PapayaSeq. *)
EXTENDS PapayaSeq, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, maps, ok
vars == <<tr, pos, maps, ok>>

Init == tr \in 1..Len(Traces) /\ pos = 0 /\ maps = <<Empty, Empty, Empty>> /\ ok = TRUE

Read ==
  /\ pos < Len(Traces[tr])
  /\ UNCHANGED tr
  /\ pos' = pos + 1
  /\ LET s == StepAll(maps, Traces[tr][pos + 1]) IN maps' = s[2] /\ ok' = (ok /\ s[1])

Spec == Init /\ [][Read]_vars
Conforms == ok
=============================================================================
