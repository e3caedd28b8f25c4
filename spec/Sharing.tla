------------------------------ MODULE Sharing ------------------------------
(* Which programs the thread-safety markers admit, and what they can do.     *)
(*                                                                           *)
(* A behaviour is a program of two threads with one value of a type of       *)
(* papaya: a container, a reference with a guard, an iterator, a guard, a    *)
(* collector or a builder.  The verdicts of the compiler on that type (may   *)
(* it be sent, may it be shared) say which transfers are possible, and the   *)
(* interface of the type says what a thread that has it can do to the keys,  *)
(* values, hasher and guard behind it.  An object may be dropped by another  *)
(* thread only if it is Send, and used by another thread only if it is Sync. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Reclaims   \* whether threads that leave a guard drop what was retired

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  tr, pos,
  home,    \* for each object, the thread that may use it without restrictions
  owner,   \* the thread that has the value itself
  refs,    \* the threads that have a shared reference to it
  sound
vars == <<tr, pos, home, owner, refs, sound>>

Threads == {1, 2}
Objects == {"k", "v", "s", "g"}

CONTAINER == 1  HANDLE == 2  ITER == 3  KEYS == 4  VALUES == 5  GUARD == 6  BUILDER == 7  COLLECTOR == 8

Row == Traces[tr][1]
Kind == Row[1]
Class(o) == CASE o = "k" -> Row[2] [] o = "v" -> Row[3] [] o = "s" -> Row[4] [] OTHER -> Row[5]
IsSend(o) == Class(o) % 2 = 1
IsSync(o) == Class(o) \div 2 = 1
MaySend == Row[6] = 1
MayShare == Row[7] = 1

(* What can be used through the value, or a reference to it. *)
Reads ==
  CASE Kind = CONTAINER -> {"k", "v", "s"}
    [] Kind = HANDLE -> {"k", "v", "s", "g"}
    [] Kind = ITER -> {"k", "v", "g"}
    [] Kind = KEYS -> {"k", "g"}
    [] Kind = VALUES -> {"v", "g"}
    [] Kind = GUARD -> {"g"}
    [] Kind = BUILDER -> {"s"}
    [] OTHER -> {}
(* Entries can be inserted, removed and replaced. *)
Writes == Kind \in {CONTAINER, HANDLE}
(* Removed entries can be dropped, because a guard is left or flushed. *)
Leaves == Kind \in {GUARD, COLLECTOR} /\ Reclaims
(* What is dropped along with the value itself. *)
Owned ==
  CASE Kind = CONTAINER -> {"k", "v", "s"}
    [] Kind = HANDLE -> {"g"}
    [] Kind = GUARD -> {"g"}
    [] Kind = BUILDER -> {"s"}
    [] OTHER -> {}
(* The first thread also has the map that a reference or guard refers to. *)
Borrowed == Kind \in {HANDLE, ITER, KEYS, VALUES, GUARD, COLLECTOR}

Has(t) == t = owner \/ t \in refs

Init ==
  /\ tr \in 1..Len(Traces) /\ pos = 0
  /\ home = [o \in Objects |-> 1]
  /\ owner = 1 /\ refs = {} /\ sound = TRUE

Send(t) ==
  /\ MaySend /\ refs = {} /\ t # owner
  /\ owner' = t
  /\ home' = [o \in Objects |-> IF o \in Owned /\ IsSend(o) THEN t ELSE home[o]]
  /\ UNCHANGED <<tr, pos, refs, sound>>

Share(t) ==
  /\ MayShare /\ ~Has(t)
  /\ refs' = refs \cup {t}
  /\ UNCHANGED <<tr, pos, home, owner, sound>>

Return(t) ==
  /\ t \in refs
  /\ refs' = refs \ {t}
  /\ UNCHANGED <<tr, pos, home, owner, sound>>

Use(t, o) ==
  /\ \/ Has(t) /\ o \in Reads
     \/ Borrowed /\ t = 1 /\ o \in {"k", "v", "s"}
  /\ sound' = (sound /\ (t = home[o] \/ IsSync(o)))
  /\ UNCHANGED <<tr, pos, home, owner, refs>>

Drop(t, o) ==
  /\ \/ Has(t) /\ (Writes \/ Leaves) /\ o \in {"k", "v"}
     \/ Borrowed /\ t = 1 /\ o \in {"k", "v"}
     \/ t = owner /\ refs = {} /\ o \in Owned
  /\ sound' = (sound /\ (t = home[o] \/ IsSend(o)))
  /\ UNCHANGED <<tr, pos, home, owner, refs>>

(* A key and a value of the thread replace the ones in the map. *)
Insert(t) ==
  /\ (Has(t) /\ Writes) \/ (Borrowed /\ t = 1)
  /\ home' = [home EXCEPT !["k"] = t, !["v"] = t]
  /\ UNCHANGED <<tr, pos, owner, refs, sound>>

Next ==
  \E t \in Threads :
    \/ Send(t) \/ Share(t) \/ Return(t) \/ Insert(t)
    \/ \E o \in Objects : Use(t, o) \/ Drop(t, o)

Spec == Init /\ [][Next]_vars
Sound == sound
=============================================================================
