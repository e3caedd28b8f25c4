------------------------------- MODULE SeqGen -------------------------------
(* All short sequences of calls on a map and on a set, which the harness runs *)
(* on the real code from many physical states that PapayaSeq does not tell    *)
(* apart.  SeqTrace checks what they return.                                  *)
(*                                                                            *)
(* A call is <<operation, key, decision>>.  Keys 0 and 1 may be present at    *)
(* first, key 2 is not, and other entries fill the table.                     *)
EXTENDS PapayaSeq, Json, IOUtils, SequencesExt

CONSTANTS
  Full,   \* the length of the sequences over all calls
  Core    \* the length of the sequences over the calls that change the entry of one key, and some others

Each(ops, keys, decisions) == {<<o, k, d>> : o \in ops, k \in keys, d \in decisions}

Lookups == {GET, GETKV, HAS}
Plain == {INS, TRYINS, TRYINSW, GOI, GOIW, UPD, UOI, UOIW, REM, REME}
\* Insert, remove or abort if the key is present, insert, abort or panic if it is absent.
Computes(keys) == Each({COMP}, keys, {0, 1, 2, 4, 5, 6, 9})
Removals(keys) == Each({REMIF}, keys, {0, 1, 2})
Whole == Each({CLEAR, ITER, KEYS, VALUES, LEN, ISEMPTY}, {0}, {0}) \cup Each({RETAIN}, {0}, {0, 1, 2, 3})
Grow == Each({INS, REM}, {2}, {0}) \cup Each({RESERVE}, {0}, {-1, 0, 1, 100})

MapCalls == Each(Lookups \cup Plain, {0, 1}, {0}) \cup Computes({0, 1}) \cup Removals({0, 1}) \cup Whole \cup Grow
MapCore == Each(Plain \cup {GET}, {0}, {0}) \cup Each({COMP}, {0}, {0, 1, 6}) \cup Each({REMIF}, {0}, {0, 1})
           \cup Each({INS, REM}, {1, 2}, {0}) \cup Each({CLEAR, ITER}, {0}, {0}) \cup Each({RETAIN}, {0}, {2})
           \cup Each({RESERVE}, {0}, {100})

SetGrow == Each({SINS, SREM}, {2}, {0}) \cup Each({RESERVE}, {0}, {-1, 0, 1, 100})
SetWhole == Each({CLEAR, ITER, LEN, ISEMPTY}, {0}, {0}) \cup Each({RETAIN}, {0}, {0, 1, 2, 3})
SetCalls == Each({SGET, HAS, SINS, SREM}, {0, 1}, {0}) \cup SetWhole \cup SetGrow
SetCore == Each({SGET, SINS, SREM}, {0}, {0}) \cup Each({SINS, SREM}, {1, 2}, {0}) \cup Each({CLEAR, ITER}, {0}, {0})
           \cup Each({RETAIN}, {0}, {2}) \cup Each({RESERVE}, {0}, {100})

Sequences(calls, n) == [1..n -> calls]

Maps == Sequences(MapCalls, Full) \cup Sequences(MapCore, Core)
Sets == Sequences(SetCalls, Full) \cup Sequences(SetCore, Core)

Histories == {<<0, s>> : s \in Maps} \cup {<<1, s>> : s \in Sets}

VARIABLE written
Init == written = ndJsonSerialize(IOEnv.HISTORIES, SetToSeq(Histories))
Spec == Init /\ [][UNCHANGED written]_written
=============================================================================
