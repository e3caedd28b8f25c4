------------------------------ MODULE HbTrace -------------------------------
(* Happens-before in a recorded execution, from the memory orderings of its  *)
(* synchronization operations alone, as defined by the C++/Rust memory       *)
(* model: a store with release semantics synchronizes with an acquire load   *)
(* that reads it or a value of its release sequence, unlocking a mutex with  *)
(* locking it, and unparking a thread with its return from park.             *)
(* Every access to a key, value or table must happen after its creation.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

Threads == 1..4

VARIABLES tr, pos,
  clock,    \* the vector clock of each thread
  stored,   \* location -> the clock that an acquire load of it joins
  mutex,    \* mutex -> the clock of its last unlock
  token,    \* the clock of the unparks of each thread
  fence,    \* the clock that the next acquire fence of a thread joins, and that of its last release fence
  born,     \* object or table -> <<thread, time>> of its creation
  ordered

vars == <<tr, pos, clock, stored, mutex, token, fence, born, ordered>>

(* Events: <<kind, thread, order, location>> with kinds 0 load, 1 store, 2 read-modify-write,     *)
(* 3 failed compare-exchange, 4 lock, 5 unlock, 6 park returned, 7 unpark (location: thread),     *)
(* 8 object created, 9 object accessed, 10 table created, 11 table accessed, 12 all threads meet, *)
(* 13 fence; orders 0 relaxed, 1 acquire, 2 release, 3 both, 4 sequentially consistent.           *)
T == Traces[tr]

Zero == <<0, 0, 0, 0>>
Max(a, b) == IF a > b THEN a ELSE b
Join(u, v) == <<Max(u[1], v[1]), Max(u[2], v[2]), Max(u[3], v[3]), Max(u[4], v[4])>>
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Zero
Tick(u, t) == [u EXCEPT ![t] = @ + 1]
Acq(o) == o \in {1, 3, 4}
Rel(o) == o \in {2, 3, 4}

Init ==
  /\ tr \in 1..Len(Traces) /\ pos = 0
  /\ clock = [t \in Threads |-> [Zero EXCEPT ![t] = 1]]
  /\ stored = << >> /\ mutex = << >> /\ token = [t \in Threads |-> Zero]
  /\ fence = [t \in Threads |-> <<Zero, Zero>>]
  /\ born = << >> /\ ordered = TRUE

Read ==
  /\ pos < Len(T)
  /\ pos' = pos + 1
  /\ UNCHANGED tr
  /\ LET e == T[pos + 1]
         k == e[1]
         t == e[2]
         o == e[3]
         l == e[4]
         c == clock[t]
     IN
     CASE k \in {0, 3} ->
            /\ clock' = [clock EXCEPT ![t] = IF Acq(o) THEN Join(c, Get(stored, l)) ELSE c]
            /\ fence' = [fence EXCEPT ![t][1] = Join(@, Get(stored, l))]
            /\ UNCHANGED <<stored, mutex, token, born, ordered>>
       [] k = 1 ->
            /\ stored' = (l :> (IF Rel(o) THEN c ELSE fence[t][2])) @@ stored
            /\ clock' = [clock EXCEPT ![t] = IF Rel(o) THEN Tick(c, t) ELSE c]
            /\ UNCHANGED <<mutex, token, fence, born, ordered>>
       [] k = 2 ->
            LET c1 == IF Acq(o) THEN Join(c, Get(stored, l)) ELSE c IN
            /\ stored' = (l :> Join(Get(stored, l), IF Rel(o) THEN c1 ELSE fence[t][2])) @@ stored
            /\ clock' = [clock EXCEPT ![t] = IF Rel(o) THEN Tick(c1, t) ELSE c1]
            /\ fence' = [fence EXCEPT ![t][1] = Join(@, Get(stored, l))]
            /\ UNCHANGED <<mutex, token, born, ordered>>
       [] k = 4 ->
            /\ clock' = [clock EXCEPT ![t] = Join(c, Get(mutex, l))]
            /\ UNCHANGED <<stored, mutex, token, fence, born, ordered>>
       [] k = 5 ->
            /\ mutex' = (l :> c) @@ mutex
            /\ clock' = [clock EXCEPT ![t] = Tick(c, t)]
            /\ UNCHANGED <<stored, token, fence, born, ordered>>
       [] k = 6 ->
            /\ clock' = [clock EXCEPT ![t] = Join(c, token[t])]
            /\ UNCHANGED <<stored, mutex, token, fence, born, ordered>>
       [] k = 7 ->
            /\ token' = [token EXCEPT ![l + 1] = Join(@, c)]
            /\ clock' = [clock EXCEPT ![t] = Tick(c, t)]
            /\ UNCHANGED <<stored, mutex, fence, born, ordered>>
       [] k \in {8, 10} ->
            /\ born' = (<<k, l>> :> <<t, c[t]>>) @@ born
            /\ UNCHANGED <<clock, stored, mutex, token, fence, ordered>>
       [] k \in {9, 11} ->
            /\ ordered' = (ordered /\ LET b == born[<<k - 1, l>>] IN clock[t][b[1]] >= b[2])
            /\ UNCHANGED <<clock, stored, mutex, token, fence, born>>
       [] k = 13 ->
            LET c1 == IF Acq(o) THEN Join(c, fence[t][1]) ELSE c IN
            /\ clock' = [clock EXCEPT ![t] = IF Rel(o) THEN Tick(c1, t) ELSE c1]
            /\ fence' = [fence EXCEPT ![t][2] = IF Rel(o) THEN c1 ELSE @]
            /\ UNCHANGED <<stored, mutex, token, born, ordered>>
       [] OTHER ->
            /\ LET all == Join(Join(clock[1], clock[2]), Join(clock[3], clock[4]))
               IN clock' = [x \in Threads |-> Tick(all, x)]
            /\ UNCHANGED <<stored, mutex, token, fence, born, ordered>>

Spec == Init /\ [][Read]_vars
Ordered == ordered
=============================================================================
