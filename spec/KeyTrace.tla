------------------------------ MODULE KeyTrace ------------------------------
(* The observable behaviour of one key of a concurrent map (or one element   *)
(* of a set), as a monitor: a behaviour recorded from the real code is       *)
(* accepted iff every operation can be given an instant between its call and *)
(* its return such that the results are those of an atomic map.              *)
(*                                                                           *)
(* The monitor is the subset construction of that specification: `confs` is  *)
(* the set of all states that the atomic map may be in after the events read *)
(* so far.  The recorded behaviour violates the specification iff the set    *)
(* becomes empty.  Values are numbered in the order of their appearance, 0   *)
(* stands for "absent", and every stored value is distinct; the value of an  *)
(* element of a set is its key object.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  tr,     \* the trace that is being read
  pos,    \* the number of events read
  act,    \* the operations in progress: id -> position of the invocation
  confs   \* possible states <<current value, unlinearized operations, {<<id, value seen>>}>>

vars == <<tr, pos, act, confs>>

(* Events: <<1, id, op, argument, position of the result, 0>> invocation;    *)
(* <<2, id, kind, a, b, 0>> result; <<3, id, in, out, decision, 0>> closure; *)
(* <<4, id, value, key only, mark, 0>> yield of an iterator;                 *)
(* <<5, mark, id, 0, 0, 0>> start of the `next` that yields the key; <<9>>.  *)
INV == 1  RET == 2  CB == 3  YIELD == 4  MARK == 5  END == 9

GET == 1  GETKV == 2  HAS == 3  INS == 4  TRYINS == 5  TRYINSW == 6  GOI == 7  GOIW == 8
UPD == 9  UOI == 10  UOIW == 11  COMP == 12  REM == 13  REME == 14  REMIF == 15
CLEAR == 16  RETAIN == 17  ITER == 18  KEYS == 19  VALUES == 20  SINS == 24  SREM == 25

Iterators == {ITER, KEYS, VALUES}
Sweeps == {CLEAR, RETAIN}
\* Operations with closures, sweeps and iterators refer to all values the key has had since
\* their invocation.
Tracked == {TRYINSW, GOIW, UPD, UOI, UOIW, COMP, REMIF} \cup Sweeps \cup Iterators
Lazy == {TRYINSW, GOIW}

\* Kinds of results.
OK == 0  ERR == 1  RINS == 2  RUPD == 3  RREM == 4  RABORT == 5  INJECTED == 6  PANIC == 7
\* A panic that the documentation announces: compute was asked to remove an entry that does not exist.
REFUSED == 8
\* Decisions of closures.
DINS == 1  DREM == 2  DABORT == 3  DYES == 4  DNO == 5  DPANIC == 6

T == Traces[tr]

\* The calls of the closures of an operation, up to the given position.
Cbs(id, p) == {q \in 1..p : T[q][1] = CB /\ T[q][2] = id}
LastCb(id, p) == LET c == Cbs(id, p) IN T[CHOOSE q \in c : \A r \in c : r <= q]
HasCb(id, p, in, out, d) == \E q \in Cbs(id, p) : T[q][3] = in /\ T[q][4] = out /\ T[q][5] = d
OutCb(id, p, out) == \E q \in Cbs(id, p) : T[q][4] = out

(* The values that the key may have after operation id took effect when the  *)
(* current value is `cur`; empty if it cannot take effect now.               *)
Post(id, p, cur) ==
  LET inv == T[act[id]]
      op == inv[3]
      arg == inv[4]
      r == T[inv[5]]
      kind == r[3]
      a == r[4]
      b == r[5]
      If(c, v) == IF c THEN {v} ELSE {}
  IN
  IF inv[5] = 0 \/ kind = PANIC THEN {}
  ELSE IF kind = INJECTED THEN {cur}
  ELSE CASE op \in {GET} -> If(cur = a, cur)
         [] op = GETKV -> If(cur = a /\ b = 0, cur)
         [] op = HAS -> If((cur # 0) = (a = 1), cur)
         [] op = INS -> If(cur = a, arg)
         [] op = TRYINS -> IF kind = OK THEN If(cur = 0 /\ a = arg, arg)
                                        ELSE If(cur # 0 /\ cur = a /\ b = arg, cur)
         [] op = TRYINSW -> IF kind = OK THEN If(cur = 0 /\ HasCb(id, p, 0, a, DINS), a)
                                         ELSE If(cur # 0 /\ cur = a, cur)
         [] op = GOI -> IF a = arg THEN If(cur = 0, arg) ELSE If(cur # 0 /\ cur = a, cur)
         [] op = GOIW -> IF OutCb(id, p, a) THEN If(cur = 0 /\ HasCb(id, p, 0, a, DINS), a)
                                            ELSE If(cur # 0 /\ cur = a, cur)
         [] op = UPD -> IF a = 0 THEN If(cur = 0, 0)
                                 ELSE If(cur # 0 /\ HasCb(id, p, cur, a, DINS), a)
         [] op = UOI -> IF a = arg THEN If(cur = 0, arg)
                                   ELSE If(cur # 0 /\ HasCb(id, p, cur, a, DINS), a)
         [] op = UOIW -> If(a # 0 /\ HasCb(id, p, cur, a, DINS), a)
         [] op = COMP ->
              CASE kind = RINS -> If(cur = 0 /\ HasCb(id, p, 0, b, DINS), b)
                [] kind = RUPD -> If(cur # 0 /\ cur = a /\ HasCb(id, p, a, b, DINS), b)
                [] kind = RREM -> If(cur # 0 /\ cur = a /\ HasCb(id, p, a, 0, DREM), 0)
                [] kind = REFUSED -> If(Cbs(id, p) # {} /\ LastCb(id, p)[3] = 0 /\ LastCb(id, p)[5] = DREM, cur)
                [] kind = RABORT -> If(b = 0 /\ Cbs(id, p) # {} /\ LastCb(id, p)[5] = DABORT, cur)
                [] OTHER -> {}
         [] op = REM -> If(cur = a, 0)
         [] op = REME -> If(cur = a /\ b = 0, 0)
         [] op = REMIF ->
              IF kind = ERR
                THEN If(b = 0 /\ a # 0 /\ Cbs(id, p) # {} /\ LastCb(id, p)[3] = a /\ LastCb(id, p)[5] = DNO, cur)
              ELSE IF a = 0 THEN If(cur = 0, 0)
              ELSE If(cur = a /\ b = 0 /\ Cbs(id, p) # {} /\ LastCb(id, p)[3] = a /\ LastCb(id, p)[5] = DYES, 0)
         [] op = SINS -> IF a = 1 THEN If(cur = 0, arg) ELSE If(cur # 0, cur)
         [] op = SREM -> IF a = 1 THEN If(cur # 0, 0) ELSE If(cur = 0, 0)
         [] OTHER -> {}

OpOf(id, ac) == T[ac[id]][3]
TrackedIds == {id \in DOMAIN act : T[act[id]][1] = MARK \/ T[act[id]][3] \in Tracked}

\* The successors of a configuration: an operation takes effect, or a sweep removes the entry.
Succ(c, p) ==
  LET cur == c[1]
      Move(v, pend) == <<v, pend, IF v = cur THEN c[3] ELSE c[3] \cup {<<id, v>> : id \in TrackedIds}>>
  IN
  UNION {{Move(v, c[2] \ {id}) : v \in Post(id, p, cur)} : id \in c[2]}
  \cup (IF cur # 0
          /\ \E id \in DOMAIN act : T[act[id]][1] = INV
               /\ \/ OpOf(id, act) = CLEAR
                  \/ OpOf(id, act) = RETAIN /\ HasCb(id, p, cur, 0, DYES)
        THEN {Move(0, c[2])} ELSE {})

RECURSIVE Close(_, _, _)
Close(done, frontier, p) ==
  IF frontier = {} THEN done
  ELSE LET new == UNION {Succ(c, p) : c \in frontier} \ done
       IN Close(done \cup new, new, p)

Forget(c, id) == <<c[1], c[2], {s \in c[3] : s[1] # id}>>

\* What must hold when an operation that is not a point operation returns.
RetOk(id, c, p) ==
  LET op == OpOf(id, act)
      kind == T[p][3]
      absent == <<id, 0>> \in c[3]
  IN
  CASE op = CLEAR -> kind = OK /\ absent
    [] op = RETAIN -> kind = INJECTED \/ (kind = OK /\ (absent \/ \E q \in Cbs(id, p) : T[q][5] = DNO))
    [] op \in Iterators ->
         kind = OK /\ (absent \/ \E q \in 1..p : T[q][1] = YIELD /\ T[q][2] = id)
    [] OTHER -> kind # PANIC /\ id \notin c[2]

CbOk(id, c, p) ==
  LET e == T[p] op == OpOf(id, act) IN
  /\ <<id, e[3]>> \in c[3] \/ e[5] = DPANIC
  /\ e[5] = DINS \/ e[5] = DPANIC \/ op \in {COMP, REMIF, RETAIN}
  \* The closure of an insert-if-absent operation runs at most once.
  /\ op \in Lazy => Cardinality(Cbs(id, p)) = 1

YieldOk(id, c, e) ==
  /\ IF e[4] = 1 THEN \E s \in c[3] : s[1] = id /\ s[2] # 0
                 ELSE e[3] > 0 /\ <<id, e[3]>> \in c[3]
  /\ e[5] # 0 => <<e[5], 0>> \in c[3]

Init ==
  /\ tr \in 1..Len(Traces)
  /\ pos = 0
  /\ act = << >>
  /\ confs = {<<0, {}, {}>>}

Without(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]

Read ==
  /\ pos < Len(T)
  /\ UNCHANGED tr
  /\ pos' = pos + 1
  /\ LET e == T[pos + 1]
         id == e[2]
         p == pos + 1
     IN
     CASE e[1] = INV ->
            /\ act' = act @@ (id :> p)
            /\ LET new == {<<c[1],
                             IF e[3] \in Sweeps \cup Iterators THEN c[2] ELSE c[2] \cup {id},
                             IF e[3] \in Tracked THEN c[3] \cup {<<id, c[1]>>} ELSE c[3]>> : c \in confs}
               IN confs' = new
       [] e[1] = MARK ->
            /\ act' = act @@ (id :> p)
            /\ confs' = {<<c[1], c[2], c[3] \cup {<<id, c[1]>>}>> : c \in confs}
       [] e[1] = CB ->
            /\ act' = act
            /\ LET cl == Close(confs, confs, pos) IN confs' = {c \in cl : CbOk(id, c, p)}
       [] e[1] = YIELD ->
            /\ act' = IF e[5] # 0 THEN Without(act, e[5]) ELSE act
            /\ LET cl == Close(confs, confs, pos)
               IN confs' = {Forget(c, e[5]) : c \in {x \in cl : YieldOk(id, x, e)}}
       [] e[1] = RET ->
            /\ act' = Without(act, id)
            /\ LET cl == Close(confs, confs, pos)
               IN confs' = {Forget(c, id) : c \in {x \in cl : RetOk(id, x, p)}}
       [] OTHER ->
            /\ act' = act
            /\ confs' = IF DOMAIN act = {} THEN confs ELSE {}

Spec == Init /\ [][Read]_vars

\* The recorded behaviour is a behaviour of the specification.
Conforms == confs # {}
=============================================================================
