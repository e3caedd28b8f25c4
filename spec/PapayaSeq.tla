----------------------------- MODULE PapayaSeq -----------------------------
(* The sequential semantics of the whole interface of papaya: several maps   *)
(* (or sets) and, for every operation, what it returns and how it changes    *)
(* them.  A map is a function from keys to entries; an entry has a value and *)
(* the objects that may be its stored key (equal keys are distinguishable    *)
(* objects; the empty set means that the object is not known).  Operations   *)
(* may run their closure more than once, but always on the current value.    *)
(*                                                                           *)
(* This module is a library: SeqTrace checks recorded behaviours of the real *)
(* code against it, and SeqGen generates behaviours of it that are replayed  *)
(* on the real code.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Whether HashMap::insert keeps the stored key, as its documentation says.  *)
CONSTANT InsertKeeps

(* An event: operation, map, key, key object, value, decision, result, calls *)
(* of the closure, content returned, content given.                          *)
Op(e) == e[1]   M(e) == e[2]    Key(e) == e[3]   Obj(e) == e[4]   Value(e) == e[5]
Dec(e) == e[6]  R(e) == e[7]    C(e) == e[8]     L(e) == e[9]     G(e) == e[10]

GET == 1  GETKV == 2  HAS == 3  INS == 4  TRYINS == 5  TRYINSW == 6  GOI == 7  GOIW == 8
UPD == 9  UOI == 10  UOIW == 11  COMP == 12  REM == 13  REME == 14  REMIF == 15
CLEAR == 16  RETAIN == 17  ITER == 18  KEYS == 19  VALUES == 20  LEN == 21  ISEMPTY == 22
RESERVE == 23  SINS == 24  SREM == 25  SGET == 26
CLONE == 31  EXTEND == 32  FROMITER == 33  EQ == 34  DEBUG == 35  SER == 36  DESER == 37
EXTREF == 38  FROMARR == 39  LIVE == 40

Empty == [k \in {} |-> 0]
Present(m, k) == k \in DOMAIN m
Current(m, k) == IF Present(m, k) THEN m[k].v ELSE 0
Put(m, k, ko, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN [ko |-> ko, v |-> v] ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Narrow(m, k, o) == [m EXCEPT ![k].ko = {o}]
\* The stored key may be the object o.
MayBe(kos, o) == kos = {} \/ o \in kos
\* The key that is stored when a value is replaced by an operation that was given the object o.
Either(kos, o) == IF kos = {} THEN {} ELSE kos \cup {o}

\* The result of a call with a documented panic, or of input that was refused.
Panics == <<-1>>

OneOrZero(b) == IF b THEN 1 ELSE 0
\* The closure ran, always on the current value.
Ran(c, in) == Len(c) >= 1 /\ \A i \in 1..Len(c) : c[i][1] = in
Last(s) == s[Len(s)]
LastOut(c) == c[Len(c)][2]

\* The pairs <<key, object, value>> are exactly the content of the map.
Content(m, l, objects) ==
  /\ Len(l) = Cardinality(DOMAIN m)
  /\ {l[i][1] : i \in 1..Len(l)} = DOMAIN m
  /\ \A i \in 1..Len(l) : objects => MayBe(m[l[i][1]].ko, l[i][2])
ContentV(m, l, objects) ==
  /\ Content(m, l, objects)
  /\ \A i \in 1..Len(l) : m[l[i][1]].v = l[i][3]
NarrowAll(m, l) ==
  LET ko == [k \in {l[i][1] : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i][1] = k][2]]
  IN [k \in DOMAIN m |-> [m[k] EXCEPT !.ko = {ko[k]}]]

\* Inserts a sequence of triples. The elements of a set have the value 0 and keep their object.
RECURSIVE Fill(_, _, _)
Fill(m, q, i) ==
  IF i > Len(q) THEN m
  ELSE LET k == q[i][1]
           o == q[i][2]
           ko == IF ~Present(m, k) THEN (IF o = 0 THEN {} ELSE {o})
                 ELSE IF q[i][3] = 0 \/ InsertKeeps THEN m[k].ko ELSE Either(m[k].ko, o)
       IN Fill(Put(m, k, ko, q[i][3]), q, i + 1)

\* The step of an operation on one map: <<whether the event is right, the map afterwards>>.
Step(m, e) ==
  LET k == Key(e)
      o == Obj(e)
      v == Value(e)
      r == R(e)
      c == C(e)
      l == L(e)
      p == Present(m, k)
      cur == Current(m, k)
      kos == m[k].ko
      \* The pair returned is the entry: <<object, value, key>> from position i of the result.
      Entry(i) == Len(r) >= i + 2 /\ MayBe(kos, r[i]) /\ r[i + 1] = cur /\ r[i + 2] = k
      Quiet == c = << >>
  IN
  CASE Op(e) = GET -> <<r = <<cur>>, m>>
    [] Op(e) \in {GETKV, SGET} ->
         IF p THEN <<Len(r) = 3 /\ Entry(1), IF Len(r) = 3 THEN Narrow(m, k, r[1]) ELSE m>>
         ELSE <<r = << >>, m>>
    [] Op(e) = HAS -> <<r = <<OneOrZero(p)>>, m>>
    [] Op(e) = INS ->
         <<r = <<cur>>,
           Put(m, k, IF ~p THEN {o} ELSE IF InsertKeeps THEN kos ELSE Either(kos, o), v)>>
    [] Op(e) = TRYINS -> IF p THEN <<r = <<0, cur, v>>, m>> ELSE <<r = <<1, v, 0>>, Put(m, k, {o}, v)>>
    [] Op(e) = TRYINSW ->
         IF p THEN <<r = <<0, cur>> /\ Quiet, m>>
         ELSE <<r = <<1, v>> /\ c = <<<<0, v>>>>, Put(m, k, {o}, v)>>
    [] Op(e) = GOI -> IF p THEN <<r = <<cur>>, m>> ELSE <<r = <<v>>, Put(m, k, {o}, v)>>
    [] Op(e) = GOIW ->
         IF p THEN <<r = <<cur>> /\ Quiet, m>>
         ELSE <<r = <<v>> /\ c = <<<<0, v>>>>, Put(m, k, {o}, v)>>
    [] Op(e) = UPD ->
         IF p THEN <<r = <<v>> /\ Ran(c, cur), Put(m, k, Either(kos, o), v)>>
         ELSE <<r = <<0>> /\ Quiet, m>>
    [] Op(e) = UOI ->
         IF p THEN <<r = <<v>> /\ Ran(c, cur), Put(m, k, Either(kos, o), v)>>
         ELSE <<r = <<v>> /\ Quiet, Put(m, k, {o}, v)>>
    [] Op(e) = UOIW ->
         IF p THEN <<r = <<v>> /\ Ran(c, cur), Put(m, k, Either(kos, o), v)>>
         ELSE <<r = <<v>> /\ c = <<<<0, v>>>>, Put(m, k, {o}, v)>>
    [] Op(e) = COMP ->
         LET d == IF p THEN Dec(e) % 4 ELSE IF Dec(e) \div 4 = 0 THEN 0 ELSE IF Dec(e) \div 4 = 1 THEN 2 ELSE 1 IN
         IF ~p /\ d = 1 THEN <<r = Panics /\ Ran(c, 0), m>>
         ELSE IF Len(r) # 5 THEN <<FALSE, m>>
         ELSE IF ~p /\ d = 0 THEN <<r = <<1, 0, o, v, k>> /\ Ran(c, 0), Put(m, k, {o}, v)>>
         ELSE IF d = 0 THEN
           <<r[1] = 2 /\ r[2] = cur /\ MayBe(Either(kos, o), r[3]) /\ r[4] = v /\ r[5] = k /\ Ran(c, cur),
             Put(m, k, {r[3]}, v)>>
         ELSE IF d = 1 THEN
           <<r[1] = 3 /\ r[2] = cur /\ MayBe(kos, r[3]) /\ r[5] = k /\ Ran(c, cur), Del(m, k)>>
         ELSE <<r[1] = 4 /\ r[2] = 77 /\ Ran(c, cur), m>>
    [] Op(e) = REM -> <<r = <<cur>>, Del(m, k)>>
    [] Op(e) = REME ->
         IF p THEN <<Len(r) = 3 /\ Entry(1), Del(m, k)>> ELSE <<r = << >>, m>>
    [] Op(e) = REMIF ->
         IF ~p THEN <<r = <<1>> /\ Quiet, m>>
         ELSE IF Len(r) # 4 \/ ~Ran(c, cur) THEN <<FALSE, m>>
         ELSE IF LastOut(c) = 1 THEN <<r[1] = 2 /\ Entry(2), Del(m, k)>>
         ELSE <<r[1] = 3 /\ Entry(2), Narrow(m, k, r[2])>>
    [] Op(e) = SINS -> <<r = <<OneOrZero(~p)>>, IF p THEN m ELSE Put(m, k, {o}, 0)>>
    [] Op(e) = SREM -> <<r = <<OneOrZero(p)>>, Del(m, k)>>
    [] Op(e) = CLEAR -> <<r = << >>, Empty>>
    [] Op(e) = RETAIN ->
         LET Idx(x) == {i \in 1..Len(l) : l[i][1] = x}
             Final(x) == l[CHOOSE i \in Idx(x) : \A j \in Idx(x) : j <= i][2]
         IN <<r = << >> /\ {l[i][1] : i \in 1..Len(l)} = DOMAIN m
                /\ \A i \in 1..Len(l) : l[i][3] = m[l[i][1]].v,
              [x \in {y \in DOMAIN m : Idx(y) # {} /\ Final(y) = 1} |-> m[x]]>>
    [] Op(e) = ITER -> LET ok == r = << >> /\ ContentV(m, l, TRUE) IN <<ok, IF ok THEN NarrowAll(m, l) ELSE m>>
    [] Op(e) = KEYS -> LET ok == r = << >> /\ Content(m, l, TRUE) IN <<ok, IF ok THEN NarrowAll(m, l) ELSE m>>
    [] Op(e) = VALUES ->
         <<r = << >> /\ Len(l) = Cardinality(DOMAIN m)
             /\ \A x \in {l[i][3] : i \in 1..Len(l)} :
                  Cardinality({i \in 1..Len(l) : l[i][3] = x}) = Cardinality({y \in DOMAIN m : m[y].v = x}),
           m>>
    [] Op(e) = LEN -> <<r = <<Cardinality(DOMAIN m)>>, m>>
    [] Op(e) = ISEMPTY -> <<r = <<OneOrZero(DOMAIN m = {})>>, m>>
    \* A negative number stands for more than there can be room for.
    [] Op(e) = RESERVE -> <<r = IF Dec(e) < 0 THEN Panics ELSE << >>, m>>
    [] Op(e) = EXTEND -> <<r = << >>, Fill(m, G(e), 1)>>
    [] Op(e) \in {DEBUG, SER} -> <<r = << >> /\ ContentV(m, l, FALSE), m>>
    [] Op(e) \in {EXTREF, FROMARR} ->
         <<LET n == Fill(Empty, G(e), 1) IN ContentV(n, l, FALSE) /\ r = <<Len(l)>>, m>>
    [] OTHER -> <<FALSE, m>>

Same(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k].v = b[k].v

\* The step of any operation on all maps.
StepAll(maps, e) ==
  CASE Op(e) = CLONE ->
         <<R(e) = << >>,
           [maps EXCEPT ![M(e)] = [k \in DOMAIN maps[Value(e)] |-> [ko |-> {}, v |-> maps[Value(e)][k].v]]]>>
    \* Broken input is refused.
    [] Op(e) = DESER /\ Dec(e) = 3 -> <<R(e) = Panics, maps>>
    [] Op(e) \in {FROMITER, DESER} -> <<R(e) = << >>, [maps EXCEPT ![M(e)] = Fill(Empty, G(e), 1)]>>
    [] Op(e) = EQ -> <<R(e) = <<OneOrZero(Same(maps[M(e)], maps[Value(e)]))>>, maps>>
    \* Nothing is left when all maps have been dropped, and nothing was dropped twice.
    [] Op(e) = LIVE -> <<R(e) = <<0, 0, 0, 0>>, maps>>
    [] OTHER -> LET s == Step(maps[M(e)], e) IN <<s[1], [maps EXCEPT ![M(e)] = s[2]]>>
=============================================================================
