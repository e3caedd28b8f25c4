------------------------------- MODULE Parker -------------------------------
(* How blocked operations wait for a word in memory to change (an entry to be *)
(* copied, a resize to end), and how they are woken.  A waiting thread        *)
(* announces itself in `pending`, registers under the word and then looks at  *)
(* the word; a thread that changes the word then looks at `pending`.  One of  *)
(* the two sees the other, provided that the two pairs of accesses are        *)
(* sequentially consistent: without (Ordered = FALSE) the change of the word  *)
(* may become visible after `pending` was read, and a waiter sleeps for ever. *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS
  Waiters, Words,
  Ordered,    \* sequentially consistent accesses
  Spurious,   \* park may return without an unpark
  Single      \* (a mistake, for comparison) only one of the waiting threads is woken

Unparkers == Words   \* one thread changes each word

(* --algorithm parker
variables
  word = [w \in Words |-> FALSE],       \* the condition that is waited for
  pending = 0,
  lock = "free",
  registered = [w \in Words |-> {}],    \* <<thread, number>>
  number = 0,
  token = [t \in Waiters |-> FALSE],
  buffered = {};                        \* changes that are not visible yet

define
  Settled == \A t \in Waiters : pc[t] = "Done"
end define;

fair process waiter \in Waiters
variables on \in Words; id = 0; mine = FALSE;
begin
  announce:
    pending := pending + 1;
  register:
    await lock = "free";
    number := number + 1;
    id := number;
    registered[on] := registered[on] \cup {<<self, id>>};
  look:
    if word[on] then
      goto withdraw;
    end if;
  park:
    if ~Spurious then
      await token[self];
    end if;
    token[self] := FALSE;
  woken:
    await lock = "free";
    if <<self, id>> \in registered[on] then
      goto park;
    end if;
  again:
    if word[on] then
      goto Done;
    else
      goto announce;
    end if;
  withdraw:
    await lock = "free";
    mine := <<self, id>> \in registered[on];
    registered[on] := registered[on] \ {<<self, id>>};
  unannounce:
    if mine then
      pending := pending - 1;
    end if;
end process;

fair process unparker \in Unparkers
variables taken = {};
begin
  change:
    if Ordered then
      word[self] := TRUE;
    else
      buffered := buffered \cup {self};
    end if;
  check:
    if pending = 0 then
      goto visible;
    end if;
  take:
    await lock = "free";
    if Single /\ registered[self] # {} then
      with x \in registered[self] do taken := {x}; end with;
    else
      taken := registered[self];
    end if;
    registered[self] := registered[self] \ taken;
  discount:
    pending := pending - Cardinality(taken);
  wake:
    while taken # {} do
      with x \in taken do
        token[x[1]] := TRUE;
        taken := taken \ {x};
      end with;
    end while;
  visible:
    if self \in buffered then
      word[self] := TRUE;
      buffered := buffered \ {self};
    end if;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "dc3c7897" /\ chksum(tla) = "e12bf2a5")
VARIABLES pc, word, pending, lock, registered, number, token, buffered

(* define statement *)
Settled == \A t \in Waiters : pc[t] = "Done"

VARIABLES on, id, mine, taken

vars == << pc, word, pending, lock, registered, number, token, buffered, on, 
           id, mine, taken >>

ProcSet == (Waiters) \cup (Unparkers)

Init == (* Global variables *)
        /\ word = [w \in Words |-> FALSE]
        /\ pending = 0
        /\ lock = "free"
        /\ registered = [w \in Words |-> {}]
        /\ number = 0
        /\ token = [t \in Waiters |-> FALSE]
        /\ buffered = {}
        (* Process waiter *)
        /\ on \in [Waiters -> Words]
        /\ id = [self \in Waiters |-> 0]
        /\ mine = [self \in Waiters |-> FALSE]
        (* Process unparker *)
        /\ taken = [self \in Unparkers |-> {}]
        /\ pc = [self \in ProcSet |-> CASE self \in Waiters -> "announce"
                                        [] self \in Unparkers -> "change"]

announce(self) == /\ pc[self] = "announce"
                  /\ pending' = pending + 1
                  /\ pc' = [pc EXCEPT ![self] = "register"]
                  /\ UNCHANGED << word, lock, registered, number, token, 
                                  buffered, on, id, mine, taken >>

register(self) == /\ pc[self] = "register"
                  /\ lock = "free"
                  /\ number' = number + 1
                  /\ id' = [id EXCEPT ![self] = number']
                  /\ registered' = [registered EXCEPT ![on[self]] = registered[on[self]] \cup {<<self, id'[self]>>}]
                  /\ pc' = [pc EXCEPT ![self] = "look"]
                  /\ UNCHANGED << word, pending, lock, token, buffered, on, 
                                  mine, taken >>

look(self) == /\ pc[self] = "look"
              /\ IF word[on[self]]
                    THEN /\ pc' = [pc EXCEPT ![self] = "withdraw"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "park"]
              /\ UNCHANGED << word, pending, lock, registered, number, token, 
                              buffered, on, id, mine, taken >>

park(self) == /\ pc[self] = "park"
              /\ IF ~Spurious
                    THEN /\ token[self]
                    ELSE /\ TRUE
              /\ token' = [token EXCEPT ![self] = FALSE]
              /\ pc' = [pc EXCEPT ![self] = "woken"]
              /\ UNCHANGED << word, pending, lock, registered, number, 
                              buffered, on, id, mine, taken >>

woken(self) == /\ pc[self] = "woken"
               /\ lock = "free"
               /\ IF <<self, id[self]>> \in registered[on[self]]
                     THEN /\ pc' = [pc EXCEPT ![self] = "park"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "again"]
               /\ UNCHANGED << word, pending, lock, registered, number, token, 
                               buffered, on, id, mine, taken >>

again(self) == /\ pc[self] = "again"
               /\ IF word[on[self]]
                     THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "announce"]
               /\ UNCHANGED << word, pending, lock, registered, number, token, 
                               buffered, on, id, mine, taken >>

withdraw(self) == /\ pc[self] = "withdraw"
                  /\ lock = "free"
                  /\ mine' = [mine EXCEPT ![self] = <<self, id[self]>> \in registered[on[self]]]
                  /\ registered' = [registered EXCEPT ![on[self]] = registered[on[self]] \ {<<self, id[self]>>}]
                  /\ pc' = [pc EXCEPT ![self] = "unannounce"]
                  /\ UNCHANGED << word, pending, lock, number, token, buffered, 
                                  on, id, taken >>

unannounce(self) == /\ pc[self] = "unannounce"
                    /\ IF mine[self]
                          THEN /\ pending' = pending - 1
                          ELSE /\ TRUE
                               /\ UNCHANGED pending
                    /\ pc' = [pc EXCEPT ![self] = "Done"]
                    /\ UNCHANGED << word, lock, registered, number, token, 
                                    buffered, on, id, mine, taken >>

waiter(self) == announce(self) \/ register(self) \/ look(self)
                   \/ park(self) \/ woken(self) \/ again(self)
                   \/ withdraw(self) \/ unannounce(self)

change(self) == /\ pc[self] = "change"
                /\ IF Ordered
                      THEN /\ word' = [word EXCEPT ![self] = TRUE]
                           /\ UNCHANGED buffered
                      ELSE /\ buffered' = (buffered \cup {self})
                           /\ word' = word
                /\ pc' = [pc EXCEPT ![self] = "check"]
                /\ UNCHANGED << pending, lock, registered, number, token, on, 
                                id, mine, taken >>

check(self) == /\ pc[self] = "check"
               /\ IF pending = 0
                     THEN /\ pc' = [pc EXCEPT ![self] = "visible"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "take"]
               /\ UNCHANGED << word, pending, lock, registered, number, token, 
                               buffered, on, id, mine, taken >>

take(self) == /\ pc[self] = "take"
              /\ lock = "free"
              /\ IF Single /\ registered[self] # {}
                    THEN /\ \E x \in registered[self]:
                              taken' = [taken EXCEPT ![self] = {x}]
                    ELSE /\ taken' = [taken EXCEPT ![self] = registered[self]]
              /\ registered' = [registered EXCEPT ![self] = registered[self] \ taken'[self]]
              /\ pc' = [pc EXCEPT ![self] = "discount"]
              /\ UNCHANGED << word, pending, lock, number, token, buffered, on, 
                              id, mine >>

discount(self) == /\ pc[self] = "discount"
                  /\ pending' = pending - Cardinality(taken[self])
                  /\ pc' = [pc EXCEPT ![self] = "wake"]
                  /\ UNCHANGED << word, lock, registered, number, token, 
                                  buffered, on, id, mine, taken >>

wake(self) == /\ pc[self] = "wake"
              /\ IF taken[self] # {}
                    THEN /\ \E x \in taken[self]:
                              /\ token' = [token EXCEPT ![x[1]] = TRUE]
                              /\ taken' = [taken EXCEPT ![self] = taken[self] \ {x}]
                         /\ pc' = [pc EXCEPT ![self] = "wake"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "visible"]
                         /\ UNCHANGED << token, taken >>
              /\ UNCHANGED << word, pending, lock, registered, number, 
                              buffered, on, id, mine >>

visible(self) == /\ pc[self] = "visible"
                 /\ IF self \in buffered
                       THEN /\ word' = [word EXCEPT ![self] = TRUE]
                            /\ buffered' = buffered \ {self}
                       ELSE /\ TRUE
                            /\ UNCHANGED << word, buffered >>
                 /\ pc' = [pc EXCEPT ![self] = "Done"]
                 /\ UNCHANGED << pending, lock, registered, number, token, on, 
                                 id, mine, taken >>

unparker(self) == change(self) \/ check(self) \/ take(self)
                     \/ discount(self) \/ wake(self) \/ visible(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Waiters: waiter(self))
           \/ (\E self \in Unparkers: unparker(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ \A self \in Waiters : WF_vars(waiter(self))
        /\ \A self \in Unparkers : WF_vars(unparker(self))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 

\* Every waiter returns, and only when its condition holds.
Wakes == <>[](\A t \in Waiters : pc[t] = "Done")
Truly == \A t \in Waiters : pc[t] = "Done" => word[on[t]]
\* `pending` never misses a thread that may sleep, and is exact in the end.
Announced == \A w \in Words : Cardinality(registered[w]) <= pending
Clean == (\A p \in Waiters \cup Unparkers : pc[p] = "Done") => pending = 0 /\ \A w \in Words : registered[w] = {}
=============================================================================
