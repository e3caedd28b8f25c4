----------------------------- MODULE PapayaAlg -----------------------------
(* The algorithm of papaya, at the level of single accesses to shared memory: *)
(* tables of tagged entries with metadata, the operations on them, resizes in *)
(* both modes with cooperative copying, aborted and nested resizes, promotion *)
(* and deferred retirement.  The length of the next table is chosen           *)
(* arbitrarily.  Parking is abstracted to waiting (Parker has the details).   *)
(*                                                                            *)
(* A ghost map has the logical content.  Every linearization point asserts    *)
(* what the operation returns, and every access that the memory was not       *)
(* reclaimed.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Incremental,   \* the resize mode
  Chunk,         \* entries copied at a time
  NKeys, NThreads, NOps,
  Ops,           \* the operations that threads choose from
  MaxTables,     \* how many tables a behaviour may allocate
  Lengths,       \* the lengths of tables; the largest one makes room for everything
  Starts         \* initial states: <<length, keys present, keys removed, resizing>>

Keys == 1..NKeys
Threads == 1..NThreads
MaxLen == CHOOSE l \in Lengths : \A x \in Lengths : x <= l
Slots == 0..(MaxLen - 1)

\* Entries: those that are present initially, and one for every operation.
Entry0(k) == k
EntryOf(t, n) == NKeys + (t - 1) * NOps + n
Entries == 1..(NKeys + NThreads * NOps)
Tables == 1..MaxTables
TableObj(x) == 100 + x
Objects == Entries \cup {TableObj(x) : x \in Tables}

EMPTY == 0
TOMB == -1

Null == [e |-> 0, copying |-> FALSE, copied |-> FALSE, borrowed |-> FALSE]
Tombstone == [Null EXCEPT !.copied = TRUE]
Plain(e) == [Null EXCEPT !.e = e]

NoTable == [len |-> 0, slots |-> [i \in Slots |-> Null], meta |-> [i \in Slots |-> EMPTY], next |-> 0,
            claim |-> 0, copied |-> 0, status |-> "pending", deferred |-> {}]

Probe(k, len, p) == (k + (p * (p + 1)) \div 2) % len
Limit(len) == len - 1

\* The initial table of a start: the keys are where insertions put them.
RECURSIVE Place(_, _, _, _)
Place(tab, k, present, removed) ==
  IF k > NKeys THEN tab
  ELSE IF k \notin present \cup removed THEN Place(tab, k + 1, present, removed)
  ELSE LET p == CHOOSE p \in 0..Limit(tab.len) :
                  /\ tab.meta[Probe(k, tab.len, p)] = EMPTY
                  /\ \A q \in 0..(p - 1) : tab.meta[Probe(k, tab.len, q)] # EMPTY
           i == Probe(k, tab.len, p)
           new == IF k \in present
                  THEN [tab EXCEPT !.slots[i] = Plain(Entry0(k)), !.meta[i] = k]
                  ELSE [tab EXCEPT !.slots[i] = Tombstone, !.meta[i] = TOMB]
       IN Place(new, k + 1, present, removed)

StartTable(s) == [Place([NoTable EXCEPT !.len = s[1]], 1, s[2], s[3]) EXCEPT !.status = "promoted"]

(* --algorithm papaya
variables
  start \in Starts,
  tables = [x \in Tables |->
              IF x = 1 THEN [StartTable(start) EXCEPT !.next = IF start[4] > 0 THEN 2 ELSE 0]
              ELSE IF x = 2 /\ start[4] > 0 THEN [NoTable EXCEPT !.len = start[4]] ELSE NoTable],
  allocated = IF start[4] > 0 THEN 2 ELSE 1,
  root = 1,
  key = [e \in Entries |-> IF e <= NKeys THEN e ELSE 0],
  \* The logical content, and for each running operation what each key had meanwhile.
  ghost = [k \in Keys |-> IF k \in start[2] THEN Entry0(k) ELSE 0],
  seen = [t \in Threads |-> [k \in Keys |-> {}]],
  \* The keys whose insertion has not returned, and was not observed either: lookups may miss them.
  shy = {},
  count = Cardinality(start[2]),
  \* Reclamation: who may still use an object that was retired.
  active = {},
  life = [o \in Objects |-> "live"],
  waits = [o \in Objects |-> {}],
  \* Whether more tables than the bound were necessary.
  overflow = FALSE,
  \* What procedures return.
  into = [t \in Threads |-> 0],
  fits = [t \in Threads |-> TRUE],
  done = [t \in Threads |-> FALSE];

define
  Full(s) == s.e # 0
  \* The entry that a key has according to the tables, from a table on.
  Max2(e) == IF e = 0 THEN 1 ELSE e
  Content == {k \in Keys : ghost[k] # 0}
end define;

macro Touch(o) begin
  assert life[o] # "freed";
end macro;

macro Change(k, e, hidden) begin
  shy := IF hidden THEN shy \cup {k} ELSE shy \ {k};
  ghost[k] := e;
  seen := [t \in Threads |-> [seen[t] EXCEPT ![k] = @ \cup {e}]];
end macro;

macro RetireEntry(e) begin
  assert life[e] = "live";
  life[e] := "retired";
  waits[e] := active;
end macro;

\* Allocates the table after `x`, of any length.
procedure alloc_next(ax = 0)
begin
  alloc:
    Touch(TableObj(ax));
    if tables[ax].next = 0 then
      if allocated = MaxTables then
        \* Out of bounds: the behaviour ends here.
        overflow := TRUE;
      else
        with l \in IF allocated + 1 = MaxTables THEN {MaxLen} ELSE Lengths do
          allocated := allocated + 1;
          tables[ax].next := allocated || tables[allocated].len := l;
        end with;
      end if;
    end if;
    return;
end procedure;

\* Copies an entry to `cd` or a later table. Sets `fits`.
procedure copy_entry(cs = 0, ci = 0, cd = 0)
variables cent = Null; cp = 0; cm = 0;
begin
  mark:
    Touch(TableObj(cs));
    with c = tables[cs].slots[ci] do
      tables[cs].slots[ci].copying := TRUE;
      if c.e # 0 then
        cent := c;
      elsif c = Tombstone then
        return;
      else
        goto null_copy;
      end if;
    end with;
  next_probe:
    Touch(TableObj(cd));
    Touch(cent.e);
    if cp > Limit(tables[cd].len) then
      if ~Incremental then
        fits[self] := FALSE;
        return;
      else
        call alloc_next(cd);
        goto follow;
      end if;
    else
      cm := tables[cd].meta[Probe(key[cent.e], tables[cd].len, cp)];
      if cm # EMPTY then
        cp := cp + 1;
        goto next_probe;
      end if;
    end if;
  claim_slot:
    Touch(TableObj(cd));
    with i = Probe(key[cent.e], tables[cd].len, cp) do
      if tables[cd].slots[i] = Null then
        tables[cd].slots[i] := IF Incremental THEN [Plain(cent.e) EXCEPT !.borrowed = TRUE] ELSE Plain(cent.e);
      else
        cm := IF tables[cd].slots[i].e = 0 THEN TOMB ELSE key[tables[cd].slots[i].e];
        if tables[cd].slots[i].e # 0 then
          Touch(tables[cd].slots[i].e);
        end if;
        goto fix_meta;
      end if;
    end with;
  store_meta:
    Touch(TableObj(cd));
    tables[cd].meta[Probe(key[cent.e], tables[cd].len, cp)] := key[cent.e];
    if Incremental then
      goto mark_copied;
    else
      return;
    end if;
  fix_meta:
    Touch(TableObj(cd));
    with i = Probe(key[cent.e], tables[cd].len, cp) do
      if tables[cd].meta[i] = EMPTY then
        tables[cd].meta[i] := cm;
      end if;
    end with;
    cp := cp + 1;
    goto next_probe;
  follow:
    cd := tables[cd].next;
    cp := 0;
    goto next_probe;
  mark_copied:
    Touch(TableObj(cs));
    tables[cs].slots[ci] := [cent EXCEPT !.copying = TRUE, !.copied = TRUE];
    return;
  null_copy:
    Touch(TableObj(cs));
    tables[cs].meta[ci] := TOMB;
    return;
end procedure;

\* Adds to the number of copied entries, and promotes the next table. Sets `done`.
procedure promote(pt = 0, pn = 0, pc_ = 0)
begin
  add:
    Touch(TableObj(pn));
    Touch(TableObj(pt));
    done[self] := FALSE;
    tables[pn].copied := tables[pn].copied + pc_;
    assert tables[pn].copied <= tables[pt].len;
    if tables[pn].copied # tables[pt].len then
      return;
    end if;
  swap:
    if root = pt then
      root := pn;
    elsif root # pt then
      done[self] := root = pt;
      return;
    end if;
  publish:
    tables[pn].status := "promoted";
    done[self] := TRUE;
    pc_ := tables[pt].next;
  retire_tables:
    \* The tables of aborted resizes in between, then the old one.
    if pc_ # pn then
      assert life[TableObj(pc_)] = "live";
      life[TableObj(pc_)] := "retired";
      waits[TableObj(pc_)] := active;
      pc_ := tables[pc_].next;
      goto retire_tables;
    else
      assert life[TableObj(pt)] = "live";
      life[TableObj(pt)] := "retired";
      waits[TableObj(pt)] := active;
      return;
    end if;
end procedure;

\* Helps with a resize. Sets `tab` for blocking helpers.
procedure help(hall = FALSE, ht = 0)
variables hn = 0; hi = 0; hc = 0; hend = 0; hchunk = 0;
begin
  enter:
    if Incremental then
      ht := root;
    end if;
  find_next:
    Touch(TableObj(ht));
    if tables[ht].next = 0 then
      assert Incremental;
      into[self] := ht;
      return;
    else
      hn := tables[ht].next;
    end if;
  keeping_up:
    Touch(TableObj(hn));
    hchunk := IF ~Incremental \/ tables[hn].next # 0 THEN tables[ht].len ELSE Chunk;
  check:
    Touch(TableObj(hn));
    if tables[hn].status = "aborted" then
      call alloc_next(hn);
      goto skip_aborted;
    else
      call promote(ht, hn, 0);
      goto claim_check;
    end if;
  skip_aborted:
    hn := tables[hn].next;
    goto check;
  claim_check:
    if done[self] then
      into[self] := hn;
      return;
    end if;
  claim_loop:
    Touch(TableObj(hn));
    if tables[hn].claim >= tables[ht].len then
      if Incremental /\ ~hall then
        into[self] := hn;
        return;
      else
        goto wait;
      end if;
    end if;
  claim_chunk:
    Touch(TableObj(hn));
    hi := tables[hn].claim;
    hend := tables[hn].claim + hchunk;
    hc := 0;
    tables[hn].claim := IF hend > tables[ht].len THEN tables[ht].len ELSE hend;
  copying:
    if hi < hend /\ hi < tables[ht].len then
      fits[self] := TRUE;
      call copy_entry(ht, hi, hn);
    else
      call promote(ht, hn, hc);
      goto after_chunk;
    end if;
  copied_one:
    if fits[self] then
      hi := hi + 1;
      hc := hc + 1;
      goto copying;
    else
      Touch(TableObj(hn));
      tables[hn].status := "aborted";
      goto check;
    end if;
  after_chunk:
    if done[self] \/ (Incremental /\ ~hall) then
      into[self] := hn;
      return;
    elsif tables[hn].status = "aborted" then
      goto check;
    else
      goto claim_loop;
    end if;
  wait:
    Touch(TableObj(hn));
    await tables[hn].status # "pending";
    if tables[hn].status = "aborted" then
      goto check;
    else
      into[self] := hn;
      return;
    end if;
end procedure;

\* Retires an entry that was removed from a table.
procedure defer_retire(dent = Null, dt = 0)
variables dx = 0;
begin
  decide:
    if ~Incremental \/ ~dent.borrowed then
      RetireEntry(dent.e);
      return;
    else
      dx := root;
      \* Whether the root is this table or a later one.
      goto later;
    end if;
  later:
    with later_tables = {y \in Tables : y >= dt /\ y <= allocated} do
      \* Tables are numbered in the order of allocation, and chained in that order.
      if dx \in later_tables then
        RetireEntry(dent.e);
        return;
      end if;
    end with;
  find_prev:
    Touch(TableObj(dx));
    if tables[dx].next = dt then
      goto push;
    else
      dx := tables[dx].next;
      goto find_prev;
    end if;
  push:
    Touch(TableObj(dx));
    tables[dx].deferred := tables[dx].deferred \cup {dent.e};
    return;
end procedure;

fair process thread \in Threads
variables
  nth = 0; op = ""; opk = 0; fresh = 0; tbl = 0; pp = 0; mm = 0; ent = Null; wait_at = -1; helped = FALSE;
  found = {}; busy = FALSE;
begin
  begin_op:
    while nth < NOps do
      nth := nth + 1;
      with o \in Ops, x \in Keys do
        op := o;
        opk := IF o \in {"clear", "iter"} THEN 1 ELSE x;
      end with;
      fresh := EntryOf(self, nth);
      key[fresh] := opk;
      active := active \cup {self};
      seen[self] := [x \in Keys |-> {ghost[x]} \cup IF x \in shy THEN {0} ELSE {}];
      found := {};
      helped := FALSE;
  load_root:
      tbl := root;
      if op \in {"clear", "iter"} then
        goto linearize;
      end if;
  start_probe:
      pp := 0;
      wait_at := -1;
  load_meta:
      Touch(TableObj(tbl));
      if pp > Limit(tables[tbl].len) then
        goto next_table;
      else
        mm := tables[tbl].meta[Probe(opk, tables[tbl].len, pp)];
        if mm = EMPTY /\ op \in {"get", "remove", "update"} then
          ent := Null;
          goto finish;
        elsif mm = EMPTY then
          goto insert_at;
        elsif mm # opk then
          pp := pp + 1;
          goto load_meta;
        end if;
      end if;
  load_entry:
      Touch(TableObj(tbl));
      ent := tables[tbl].slots[Probe(opk, tables[tbl].len, pp)];
  examine:
      if ent.e = 0 then
        pp := pp + 1;
        goto load_meta;
      else
        Touch(ent.e);
        if key[ent.e] # opk then
          pp := pp + 1;
          goto load_meta;
        elsif op = "get" then
          if ent.copied then
            goto next_table;
          else
            goto finish;
          end if;
        elsif ent.copying then
          wait_at := Probe(opk, tables[tbl].len, pp);
          goto next_table;
        elsif op = "try" then
          goto finish;
        end if;
      end if;
  cas:
      Touch(TableObj(tbl));
      with i = Probe(opk, tables[tbl].len, pp) do
        if tables[tbl].slots[i] = ent then
          assert ghost[opk] = ent.e;
          tables[tbl].slots[i] := IF op = "remove" THEN Tombstone ELSE Plain(fresh);
          Change(opk, IF op = "remove" THEN 0 ELSE fresh, FALSE);
          call defer_retire(ent, tbl);
        else
          ent := tables[tbl].slots[i];
          if ent.e = 0 then
            if op \in {"remove", "update"} then
              goto finish;
            else
              pp := pp + 1;
              goto load_meta;
            end if;
          else
            goto examine;
          end if;
        end if;
      end with;
  after_cas:
      if op = "remove" then
        tables[tbl].meta[Probe(opk, tables[tbl].len, pp)] := TOMB;
        count := count - 1;
      end if;
      \* The value replaced stays readable.
      Touch(ent.e);
      goto end_op;
  insert_at:
      Touch(TableObj(tbl));
      with i = Probe(opk, tables[tbl].len, pp) do
        if tables[tbl].slots[i] = Null then
          assert ghost[opk] = 0;
          tables[tbl].slots[i] := Plain(fresh);
          Change(opk, fresh, TRUE);
          goto insert_meta;
        else
          ent := tables[tbl].slots[i];
          goto lost_slot;
        end if;
      end with;
  insert_meta:
      Touch(TableObj(tbl));
      tables[tbl].meta[Probe(opk, tables[tbl].len, pp)] := opk;
      count := count + 1;
      shy := IF ghost[opk] = fresh THEN shy \ {opk} ELSE shy;
      goto end_op;
  lost_slot:
      Touch(TableObj(tbl));
      if ent.e # 0 then
        Touch(ent.e);
      end if;
      with i = Probe(opk, tables[tbl].len, pp) do
        if tables[tbl].meta[i] = EMPTY then
          tables[tbl].meta[i] := IF ent.e = 0 THEN TOMB ELSE key[ent.e];
        end if;
      end with;
      goto examine;
  next_table:
      Touch(TableObj(tbl));
      if op = "get" then
        if Incremental /\ tables[tbl].next # 0 then
          tbl := tables[tbl].next;
          goto start_probe;
        else
          ent := Null;
          goto finish;
        end if;
      elsif op \in {"remove", "update"} /\ (IF Incremental THEN tables[tbl].next = 0 ELSE wait_at = -1) then
        ent := Null;
        goto finish;
      elsif op \in {"insert", "try"} /\ tables[tbl].next = 0 then
        call alloc_next(tbl);
      end if;
  help_out:
      if ~Incremental then
        call help(TRUE, tbl);
      elsif ~helped then
        helped := TRUE;
        call help(FALSE, 0);
      end if;
  wait_copy:
      if Incremental then
        Touch(TableObj(tbl));
        await IF wait_at = -1 THEN TRUE ELSE tables[tbl].slots[wait_at].copied;
        tbl := tables[tbl].next;
      else
        tbl := into[self];
      end if;
      goto start_probe;

  \* Operations on the whole map.
  linearize:
      Touch(TableObj(tbl));
      if Incremental /\ tables[tbl].next # 0 then
        call help(TRUE, 0);
      else
        pp := 0;
        busy := FALSE;
        goto scan;
      end if;
  linearized:
      tbl := into[self];
      goto linearize;
  scan:
      Touch(TableObj(tbl));
      if pp >= tables[tbl].len then
        if op = "clear" /\ busy then
          call help(TRUE, tbl);
          goto linearized;
        else
          goto finish;
        end if;
      else
        mm := tables[tbl].meta[pp];
        if op = "iter" /\ mm \in {EMPTY, TOMB} then
          pp := pp + 1;
          goto scan;
        end if;
      end if;
  scan_entry:
      Touch(TableObj(tbl));
      ent := tables[tbl].slots[pp];
      if ent.e = 0 then
        pp := pp + 1;
        goto scan;
      else
        Touch(ent.e);
        if op = "iter" then
          \* A key is repeated only if it was removed in between.
          assert (\E x \in found : key[x] = key[ent.e]) => 0 \in seen[self][key[ent.e]];
          assert ent.e \in seen[self][key[ent.e]];
          found := found \cup {ent.e};
          pp := pp + 1;
          goto scan;
        elsif ent.copying then
          busy := TRUE;
          pp := pp + 1;
          goto scan;
        end if;
      end if;
  sweep:
      Touch(TableObj(tbl));
      if tables[tbl].slots[pp] = ent then
        assert ghost[key[ent.e]] = ent.e;
        tables[tbl].slots[pp] := Tombstone;
        Change(key[ent.e], 0, FALSE);
      else
        goto scan_entry;
      end if;
  sweep_meta:
      tables[tbl].meta[pp] := TOMB;
      count := count - 1;
      call defer_retire(ent, tbl);
      goto swept;
  swept:
      pp := pp + 1;
      goto scan;

  finish:
      if op \in {"clear"} then
        assert \A x \in Keys : 0 \in seen[self][x];
      elsif op = "iter" then
        assert \A x \in Keys : 0 \in seen[self][x] \/ \E e \in found : key[e] = x;
        assert \A e \in found : life[e] # "freed";
        shy := shy \ {x \in Keys : ghost[x] \in found};
      else
        assert ent.e \in seen[self][opk];
        if ent.e # 0 then
          Touch(ent.e);
          shy := IF ghost[opk] = ent.e THEN shy \ {opk} ELSE shy;
        end if;
      end if;
  end_op:
      \* The thread leaves: what nobody else waits for is reclaimed, and tables retire what was
      \* deferred to them.
      with left = active \ {self},
           w1 = [o \in Objects |-> waits[o] \ {self}],
           f1 = {o \in Objects : life[o] = "retired" /\ w1[o] = {}},
           late = UNION {tables[x].deferred : x \in {y \in Tables : TableObj(y) \in f1}} do
        assert \A e \in late : life[e] = "live";
        active := left;
        waits := [o \in Objects |-> IF o \in late THEN left ELSE w1[o]];
        life := [o \in Objects |->
                   IF o \in f1 THEN "freed"
                   ELSE IF o \in late THEN (IF left = {} THEN "freed" ELSE "retired") ELSE life[o]];
      end with;
      ent := Null;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "cc8de16d" /\ chksum(tla) = "8c786f67")
VARIABLES pc, start, tables, allocated, root, key, ghost, seen, shy, count, 
          active, life, waits, overflow, into, fits, done, stack

(* define statement *)
Full(s) == s.e # 0

Max2(e) == IF e = 0 THEN 1 ELSE e
Content == {k \in Keys : ghost[k] # 0}

VARIABLES ax, cs, ci, cd, cent, cp, cm, pt, pn, pc_, hall, ht, hn, hi, hc, 
          hend, hchunk, dent, dt, dx, nth, op, opk, fresh, tbl, pp, mm, ent, 
          wait_at, helped, found, busy

vars == << pc, start, tables, allocated, root, key, ghost, seen, shy, count, 
           active, life, waits, overflow, into, fits, done, stack, ax, cs, ci, 
           cd, cent, cp, cm, pt, pn, pc_, hall, ht, hn, hi, hc, hend, hchunk, 
           dent, dt, dx, nth, op, opk, fresh, tbl, pp, mm, ent, wait_at, 
           helped, found, busy >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ start \in Starts
        /\ tables = [x \in Tables |->
                       IF x = 1 THEN [StartTable(start) EXCEPT !.next = IF start[4] > 0 THEN 2 ELSE 0]
                       ELSE IF x = 2 /\ start[4] > 0 THEN [NoTable EXCEPT !.len = start[4]] ELSE NoTable]
        /\ allocated = (IF start[4] > 0 THEN 2 ELSE 1)
        /\ root = 1
        /\ key = [e \in Entries |-> IF e <= NKeys THEN e ELSE 0]
        /\ ghost = [k \in Keys |-> IF k \in start[2] THEN Entry0(k) ELSE 0]
        /\ seen = [t \in Threads |-> [k \in Keys |-> {}]]
        /\ shy = {}
        /\ count = Cardinality(start[2])
        /\ active = {}
        /\ life = [o \in Objects |-> "live"]
        /\ waits = [o \in Objects |-> {}]
        /\ overflow = FALSE
        /\ into = [t \in Threads |-> 0]
        /\ fits = [t \in Threads |-> TRUE]
        /\ done = [t \in Threads |-> FALSE]
        (* Procedure alloc_next *)
        /\ ax = [ self \in ProcSet |-> 0]
        (* Procedure copy_entry *)
        /\ cs = [ self \in ProcSet |-> 0]
        /\ ci = [ self \in ProcSet |-> 0]
        /\ cd = [ self \in ProcSet |-> 0]
        /\ cent = [ self \in ProcSet |-> Null]
        /\ cp = [ self \in ProcSet |-> 0]
        /\ cm = [ self \in ProcSet |-> 0]
        (* Procedure promote *)
        /\ pt = [ self \in ProcSet |-> 0]
        /\ pn = [ self \in ProcSet |-> 0]
        /\ pc_ = [ self \in ProcSet |-> 0]
        (* Procedure help *)
        /\ hall = [ self \in ProcSet |-> FALSE]
        /\ ht = [ self \in ProcSet |-> 0]
        /\ hn = [ self \in ProcSet |-> 0]
        /\ hi = [ self \in ProcSet |-> 0]
        /\ hc = [ self \in ProcSet |-> 0]
        /\ hend = [ self \in ProcSet |-> 0]
        /\ hchunk = [ self \in ProcSet |-> 0]
        (* Procedure defer_retire *)
        /\ dent = [ self \in ProcSet |-> Null]
        /\ dt = [ self \in ProcSet |-> 0]
        /\ dx = [ self \in ProcSet |-> 0]
        (* Process thread *)
        /\ nth = [self \in Threads |-> 0]
        /\ op = [self \in Threads |-> ""]
        /\ opk = [self \in Threads |-> 0]
        /\ fresh = [self \in Threads |-> 0]
        /\ tbl = [self \in Threads |-> 0]
        /\ pp = [self \in Threads |-> 0]
        /\ mm = [self \in Threads |-> 0]
        /\ ent = [self \in Threads |-> Null]
        /\ wait_at = [self \in Threads |-> -1]
        /\ helped = [self \in Threads |-> FALSE]
        /\ found = [self \in Threads |-> {}]
        /\ busy = [self \in Threads |-> FALSE]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> "begin_op"]

alloc(self) == /\ pc[self] = "alloc"
               /\ Assert(life[(TableObj(ax[self]))] # "freed", 
                         "Failure of assertion at line 98, column 3 of macro called at line 117, column 5.")
               /\ IF tables[ax[self]].next = 0
                     THEN /\ IF allocated = MaxTables
                                THEN /\ overflow' = TRUE
                                     /\ UNCHANGED << tables, allocated >>
                                ELSE /\ \E l \in IF allocated + 1 = MaxTables THEN {MaxLen} ELSE Lengths:
                                          /\ allocated' = allocated + 1
                                          /\ tables' = [tables EXCEPT ![ax[self]].next = allocated',
                                                                      ![allocated'].len = l]
                                     /\ UNCHANGED overflow
                     ELSE /\ TRUE
                          /\ UNCHANGED << tables, allocated, overflow >>
               /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
               /\ ax' = [ax EXCEPT ![self] = Head(stack[self]).ax]
               /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
               /\ UNCHANGED << start, root, key, ghost, seen, shy, count, 
                               active, life, waits, into, fits, done, cs, ci, 
                               cd, cent, cp, cm, pt, pn, pc_, hall, ht, hn, hi, 
                               hc, hend, hchunk, dent, dt, dx, nth, op, opk, 
                               fresh, tbl, pp, mm, ent, wait_at, helped, found, 
                               busy >>

alloc_next(self) == alloc(self)

mark(self) == /\ pc[self] = "mark"
              /\ Assert(life[(TableObj(cs[self]))] # "freed", 
                        "Failure of assertion at line 98, column 3 of macro called at line 137, column 5.")
              /\ LET c == tables[cs[self]].slots[ci[self]] IN
                   /\ tables' = [tables EXCEPT ![cs[self]].slots[ci[self]].copying = TRUE]
                   /\ IF c.e # 0
                         THEN /\ cent' = [cent EXCEPT ![self] = c]
                              /\ pc' = [pc EXCEPT ![self] = "next_probe"]
                              /\ UNCHANGED << stack, cs, ci, cd, cp, cm >>
                         ELSE /\ IF c = Tombstone
                                    THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                         /\ cent' = [cent EXCEPT ![self] = Head(stack[self]).cent]
                                         /\ cp' = [cp EXCEPT ![self] = Head(stack[self]).cp]
                                         /\ cm' = [cm EXCEPT ![self] = Head(stack[self]).cm]
                                         /\ cs' = [cs EXCEPT ![self] = Head(stack[self]).cs]
                                         /\ ci' = [ci EXCEPT ![self] = Head(stack[self]).ci]
                                         /\ cd' = [cd EXCEPT ![self] = Head(stack[self]).cd]
                                         /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                    ELSE /\ pc' = [pc EXCEPT ![self] = "null_copy"]
                                         /\ UNCHANGED << stack, cs, ci, cd, 
                                                         cent, cp, cm >>
              /\ UNCHANGED << start, allocated, root, key, ghost, seen, shy, 
                              count, active, life, waits, overflow, into, fits, 
                              done, ax, pt, pn, pc_, hall, ht, hn, hi, hc, 
                              hend, hchunk, dent, dt, dx, nth, op, opk, fresh, 
                              tbl, pp, mm, ent, wait_at, helped, found, busy >>

next_probe(self) == /\ pc[self] = "next_probe"
                    /\ Assert(life[(TableObj(cd[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 149, column 5.")
                    /\ Assert(life[(cent[self].e)] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 150, column 5.")
                    /\ IF cp[self] > Limit(tables[cd[self]].len)
                          THEN /\ IF ~Incremental
                                     THEN /\ fits' = [fits EXCEPT ![self] = FALSE]
                                          /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                          /\ cent' = [cent EXCEPT ![self] = Head(stack[self]).cent]
                                          /\ cp' = [cp EXCEPT ![self] = Head(stack[self]).cp]
                                          /\ cm' = [cm EXCEPT ![self] = Head(stack[self]).cm]
                                          /\ cs' = [cs EXCEPT ![self] = Head(stack[self]).cs]
                                          /\ ci' = [ci EXCEPT ![self] = Head(stack[self]).ci]
                                          /\ cd' = [cd EXCEPT ![self] = Head(stack[self]).cd]
                                          /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                          /\ ax' = ax
                                     ELSE /\ /\ ax' = [ax EXCEPT ![self] = cd[self]]
                                             /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "alloc_next",
                                                                                      pc        |->  "follow",
                                                                                      ax        |->  ax[self] ] >>
                                                                                  \o stack[self]]
                                          /\ pc' = [pc EXCEPT ![self] = "alloc"]
                                          /\ UNCHANGED << fits, cs, ci, cd, 
                                                          cent, cp, cm >>
                          ELSE /\ cm' = [cm EXCEPT ![self] = tables[cd[self]].meta[Probe(key[cent[self].e], tables[cd[self]].len, cp[self])]]
                               /\ IF cm'[self] # EMPTY
                                     THEN /\ cp' = [cp EXCEPT ![self] = cp[self] + 1]
                                          /\ pc' = [pc EXCEPT ![self] = "next_probe"]
                                     ELSE /\ pc' = [pc EXCEPT ![self] = "claim_slot"]
                                          /\ cp' = cp
                               /\ UNCHANGED << fits, stack, ax, cs, ci, cd, 
                                               cent >>
                    /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                    seen, shy, count, active, life, waits, 
                                    overflow, into, done, pt, pn, pc_, hall, 
                                    ht, hn, hi, hc, hend, hchunk, dent, dt, dx, 
                                    nth, op, opk, fresh, tbl, pp, mm, ent, 
                                    wait_at, helped, found, busy >>

claim_slot(self) == /\ pc[self] = "claim_slot"
                    /\ Assert(life[(TableObj(cd[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 167, column 5.")
                    /\ LET i == Probe(key[cent[self].e], tables[cd[self]].len, cp[self]) IN
                         IF tables[cd[self]].slots[i] = Null
                            THEN /\ tables' = [tables EXCEPT ![cd[self]].slots[i] = IF Incremental THEN [Plain(cent[self].e) EXCEPT !.borrowed = TRUE] ELSE Plain(cent[self].e)]
                                 /\ pc' = [pc EXCEPT ![self] = "store_meta"]
                                 /\ cm' = cm
                            ELSE /\ cm' = [cm EXCEPT ![self] = IF tables[cd[self]].slots[i].e = 0 THEN TOMB ELSE key[tables[cd[self]].slots[i].e]]
                                 /\ IF tables[cd[self]].slots[i].e # 0
                                       THEN /\ Assert(life[(tables[cd[self]].slots[i].e)] # "freed", 
                                                      "Failure of assertion at line 98, column 3 of macro called at line 174, column 11.")
                                       ELSE /\ TRUE
                                 /\ pc' = [pc EXCEPT ![self] = "fix_meta"]
                                 /\ UNCHANGED tables
                    /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                    shy, count, active, life, waits, overflow, 
                                    into, fits, done, stack, ax, cs, ci, cd, 
                                    cent, cp, pt, pn, pc_, hall, ht, hn, hi, 
                                    hc, hend, hchunk, dent, dt, dx, nth, op, 
                                    opk, fresh, tbl, pp, mm, ent, wait_at, 
                                    helped, found, busy >>

store_meta(self) == /\ pc[self] = "store_meta"
                    /\ Assert(life[(TableObj(cd[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 180, column 5.")
                    /\ tables' = [tables EXCEPT ![cd[self]].meta[Probe(key[cent[self].e], tables[cd[self]].len, cp[self])] = key[cent[self].e]]
                    /\ IF Incremental
                          THEN /\ pc' = [pc EXCEPT ![self] = "mark_copied"]
                               /\ UNCHANGED << stack, cs, ci, cd, cent, cp, cm >>
                          ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                               /\ cent' = [cent EXCEPT ![self] = Head(stack[self]).cent]
                               /\ cp' = [cp EXCEPT ![self] = Head(stack[self]).cp]
                               /\ cm' = [cm EXCEPT ![self] = Head(stack[self]).cm]
                               /\ cs' = [cs EXCEPT ![self] = Head(stack[self]).cs]
                               /\ ci' = [ci EXCEPT ![self] = Head(stack[self]).ci]
                               /\ cd' = [cd EXCEPT ![self] = Head(stack[self]).cd]
                               /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                    /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                    shy, count, active, life, waits, overflow, 
                                    into, fits, done, ax, pt, pn, pc_, hall, 
                                    ht, hn, hi, hc, hend, hchunk, dent, dt, dx, 
                                    nth, op, opk, fresh, tbl, pp, mm, ent, 
                                    wait_at, helped, found, busy >>

fix_meta(self) == /\ pc[self] = "fix_meta"
                  /\ Assert(life[(TableObj(cd[self]))] # "freed", 
                            "Failure of assertion at line 98, column 3 of macro called at line 188, column 5.")
                  /\ LET i == Probe(key[cent[self].e], tables[cd[self]].len, cp[self]) IN
                       IF tables[cd[self]].meta[i] = EMPTY
                          THEN /\ tables' = [tables EXCEPT ![cd[self]].meta[i] = cm[self]]
                          ELSE /\ TRUE
                               /\ UNCHANGED tables
                  /\ cp' = [cp EXCEPT ![self] = cp[self] + 1]
                  /\ pc' = [pc EXCEPT ![self] = "next_probe"]
                  /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                  shy, count, active, life, waits, overflow, 
                                  into, fits, done, stack, ax, cs, ci, cd, 
                                  cent, cm, pt, pn, pc_, hall, ht, hn, hi, hc, 
                                  hend, hchunk, dent, dt, dx, nth, op, opk, 
                                  fresh, tbl, pp, mm, ent, wait_at, helped, 
                                  found, busy >>

follow(self) == /\ pc[self] = "follow"
                /\ cd' = [cd EXCEPT ![self] = tables[cd[self]].next]
                /\ cp' = [cp EXCEPT ![self] = 0]
                /\ pc' = [pc EXCEPT ![self] = "next_probe"]
                /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                seen, shy, count, active, life, waits, 
                                overflow, into, fits, done, stack, ax, cs, ci, 
                                cent, cm, pt, pn, pc_, hall, ht, hn, hi, hc, 
                                hend, hchunk, dent, dt, dx, nth, op, opk, 
                                fresh, tbl, pp, mm, ent, wait_at, helped, 
                                found, busy >>

mark_copied(self) == /\ pc[self] = "mark_copied"
                     /\ Assert(life[(TableObj(cs[self]))] # "freed", 
                               "Failure of assertion at line 98, column 3 of macro called at line 201, column 5.")
                     /\ tables' = [tables EXCEPT ![cs[self]].slots[ci[self]] = [cent[self] EXCEPT !.copying = TRUE, !.copied = TRUE]]
                     /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                     /\ cent' = [cent EXCEPT ![self] = Head(stack[self]).cent]
                     /\ cp' = [cp EXCEPT ![self] = Head(stack[self]).cp]
                     /\ cm' = [cm EXCEPT ![self] = Head(stack[self]).cm]
                     /\ cs' = [cs EXCEPT ![self] = Head(stack[self]).cs]
                     /\ ci' = [ci EXCEPT ![self] = Head(stack[self]).ci]
                     /\ cd' = [cd EXCEPT ![self] = Head(stack[self]).cd]
                     /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                     /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                     shy, count, active, life, waits, overflow, 
                                     into, fits, done, ax, pt, pn, pc_, hall, 
                                     ht, hn, hi, hc, hend, hchunk, dent, dt, 
                                     dx, nth, op, opk, fresh, tbl, pp, mm, ent, 
                                     wait_at, helped, found, busy >>

null_copy(self) == /\ pc[self] = "null_copy"
                   /\ Assert(life[(TableObj(cs[self]))] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 205, column 5.")
                   /\ tables' = [tables EXCEPT ![cs[self]].meta[ci[self]] = TOMB]
                   /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                   /\ cent' = [cent EXCEPT ![self] = Head(stack[self]).cent]
                   /\ cp' = [cp EXCEPT ![self] = Head(stack[self]).cp]
                   /\ cm' = [cm EXCEPT ![self] = Head(stack[self]).cm]
                   /\ cs' = [cs EXCEPT ![self] = Head(stack[self]).cs]
                   /\ ci' = [ci EXCEPT ![self] = Head(stack[self]).ci]
                   /\ cd' = [cd EXCEPT ![self] = Head(stack[self]).cd]
                   /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                   /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                   shy, count, active, life, waits, overflow, 
                                   into, fits, done, ax, pt, pn, pc_, hall, ht, 
                                   hn, hi, hc, hend, hchunk, dent, dt, dx, nth, 
                                   op, opk, fresh, tbl, pp, mm, ent, wait_at, 
                                   helped, found, busy >>

copy_entry(self) == mark(self) \/ next_probe(self) \/ claim_slot(self)
                       \/ store_meta(self) \/ fix_meta(self)
                       \/ follow(self) \/ mark_copied(self)
                       \/ null_copy(self)

add(self) == /\ pc[self] = "add"
             /\ Assert(life[(TableObj(pn[self]))] # "freed", 
                       "Failure of assertion at line 98, column 3 of macro called at line 214, column 5.")
             /\ Assert(life[(TableObj(pt[self]))] # "freed", 
                       "Failure of assertion at line 98, column 3 of macro called at line 215, column 5.")
             /\ done' = [done EXCEPT ![self] = FALSE]
             /\ tables' = [tables EXCEPT ![pn[self]].copied = tables[pn[self]].copied + pc_[self]]
             /\ Assert(tables'[pn[self]].copied <= tables'[pt[self]].len, 
                       "Failure of assertion at line 218, column 5.")
             /\ IF tables'[pn[self]].copied # tables'[pt[self]].len
                   THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                        /\ pt' = [pt EXCEPT ![self] = Head(stack[self]).pt]
                        /\ pn' = [pn EXCEPT ![self] = Head(stack[self]).pn]
                        /\ pc_' = [pc_ EXCEPT ![self] = Head(stack[self]).pc_]
                        /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "swap"]
                        /\ UNCHANGED << stack, pt, pn, pc_ >>
             /\ UNCHANGED << start, allocated, root, key, ghost, seen, shy, 
                             count, active, life, waits, overflow, into, fits, 
                             ax, cs, ci, cd, cent, cp, cm, hall, ht, hn, hi, 
                             hc, hend, hchunk, dent, dt, dx, nth, op, opk, 
                             fresh, tbl, pp, mm, ent, wait_at, helped, found, 
                             busy >>

swap(self) == /\ pc[self] = "swap"
              /\ IF root = pt[self]
                    THEN /\ root' = pn[self]
                         /\ pc' = [pc EXCEPT ![self] = "publish"]
                         /\ UNCHANGED << done, stack, pt, pn, pc_ >>
                    ELSE /\ IF root # pt[self]
                               THEN /\ done' = [done EXCEPT ![self] = root = pt[self]]
                                    /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                    /\ pt' = [pt EXCEPT ![self] = Head(stack[self]).pt]
                                    /\ pn' = [pn EXCEPT ![self] = Head(stack[self]).pn]
                                    /\ pc_' = [pc_ EXCEPT ![self] = Head(stack[self]).pc_]
                                    /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "publish"]
                                    /\ UNCHANGED << done, stack, pt, pn, pc_ >>
                         /\ root' = root
              /\ UNCHANGED << start, tables, allocated, key, ghost, seen, shy, 
                              count, active, life, waits, overflow, into, fits, 
                              ax, cs, ci, cd, cent, cp, cm, hall, ht, hn, hi, 
                              hc, hend, hchunk, dent, dt, dx, nth, op, opk, 
                              fresh, tbl, pp, mm, ent, wait_at, helped, found, 
                              busy >>

publish(self) == /\ pc[self] = "publish"
                 /\ tables' = [tables EXCEPT ![pn[self]].status = "promoted"]
                 /\ done' = [done EXCEPT ![self] = TRUE]
                 /\ pc_' = [pc_ EXCEPT ![self] = tables'[pt[self]].next]
                 /\ pc' = [pc EXCEPT ![self] = "retire_tables"]
                 /\ UNCHANGED << start, allocated, root, key, ghost, seen, shy, 
                                 count, active, life, waits, overflow, into, 
                                 fits, stack, ax, cs, ci, cd, cent, cp, cm, pt, 
                                 pn, hall, ht, hn, hi, hc, hend, hchunk, dent, 
                                 dt, dx, nth, op, opk, fresh, tbl, pp, mm, ent, 
                                 wait_at, helped, found, busy >>

retire_tables(self) == /\ pc[self] = "retire_tables"
                       /\ IF pc_[self] # pn[self]
                             THEN /\ Assert(life[TableObj(pc_[self])] = "live", 
                                            "Failure of assertion at line 236, column 7.")
                                  /\ life' = [life EXCEPT ![TableObj(pc_[self])] = "retired"]
                                  /\ waits' = [waits EXCEPT ![TableObj(pc_[self])] = active]
                                  /\ pc_' = [pc_ EXCEPT ![self] = tables[pc_[self]].next]
                                  /\ pc' = [pc EXCEPT ![self] = "retire_tables"]
                                  /\ UNCHANGED << stack, pt, pn >>
                             ELSE /\ Assert(life[TableObj(pt[self])] = "live", 
                                            "Failure of assertion at line 242, column 7.")
                                  /\ life' = [life EXCEPT ![TableObj(pt[self])] = "retired"]
                                  /\ waits' = [waits EXCEPT ![TableObj(pt[self])] = active]
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ pt' = [pt EXCEPT ![self] = Head(stack[self]).pt]
                                  /\ pn' = [pn EXCEPT ![self] = Head(stack[self]).pn]
                                  /\ pc_' = [pc_ EXCEPT ![self] = Head(stack[self]).pc_]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << start, tables, allocated, root, key, 
                                       ghost, seen, shy, count, active, 
                                       overflow, into, fits, done, ax, cs, ci, 
                                       cd, cent, cp, cm, hall, ht, hn, hi, hc, 
                                       hend, hchunk, dent, dt, dx, nth, op, 
                                       opk, fresh, tbl, pp, mm, ent, wait_at, 
                                       helped, found, busy >>

promote(self) == add(self) \/ swap(self) \/ publish(self)
                    \/ retire_tables(self)

enter(self) == /\ pc[self] = "enter"
               /\ IF Incremental
                     THEN /\ ht' = [ht EXCEPT ![self] = root]
                     ELSE /\ TRUE
                          /\ ht' = ht
               /\ pc' = [pc EXCEPT ![self] = "find_next"]
               /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                               seen, shy, count, active, life, waits, overflow, 
                               into, fits, done, stack, ax, cs, ci, cd, cent, 
                               cp, cm, pt, pn, pc_, hall, hn, hi, hc, hend, 
                               hchunk, dent, dt, dx, nth, op, opk, fresh, tbl, 
                               pp, mm, ent, wait_at, helped, found, busy >>

find_next(self) == /\ pc[self] = "find_next"
                   /\ Assert(life[(TableObj(ht[self]))] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 258, column 5.")
                   /\ IF tables[ht[self]].next = 0
                         THEN /\ Assert(Incremental, 
                                        "Failure of assertion at line 260, column 7.")
                              /\ into' = [into EXCEPT ![self] = ht[self]]
                              /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                              /\ hn' = [hn EXCEPT ![self] = Head(stack[self]).hn]
                              /\ hi' = [hi EXCEPT ![self] = Head(stack[self]).hi]
                              /\ hc' = [hc EXCEPT ![self] = Head(stack[self]).hc]
                              /\ hend' = [hend EXCEPT ![self] = Head(stack[self]).hend]
                              /\ hchunk' = [hchunk EXCEPT ![self] = Head(stack[self]).hchunk]
                              /\ hall' = [hall EXCEPT ![self] = Head(stack[self]).hall]
                              /\ ht' = [ht EXCEPT ![self] = Head(stack[self]).ht]
                              /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                         ELSE /\ hn' = [hn EXCEPT ![self] = tables[ht[self]].next]
                              /\ pc' = [pc EXCEPT ![self] = "keeping_up"]
                              /\ UNCHANGED << into, stack, hall, ht, hi, hc, 
                                              hend, hchunk >>
                   /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                   seen, shy, count, active, life, waits, 
                                   overflow, fits, done, ax, cs, ci, cd, cent, 
                                   cp, cm, pt, pn, pc_, dent, dt, dx, nth, op, 
                                   opk, fresh, tbl, pp, mm, ent, wait_at, 
                                   helped, found, busy >>

keeping_up(self) == /\ pc[self] = "keeping_up"
                    /\ Assert(life[(TableObj(hn[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 267, column 5.")
                    /\ hchunk' = [hchunk EXCEPT ![self] = IF ~Incremental \/ tables[hn[self]].next # 0 THEN tables[ht[self]].len ELSE Chunk]
                    /\ pc' = [pc EXCEPT ![self] = "check"]
                    /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                    seen, shy, count, active, life, waits, 
                                    overflow, into, fits, done, stack, ax, cs, 
                                    ci, cd, cent, cp, cm, pt, pn, pc_, hall, 
                                    ht, hn, hi, hc, hend, dent, dt, dx, nth, 
                                    op, opk, fresh, tbl, pp, mm, ent, wait_at, 
                                    helped, found, busy >>

check(self) == /\ pc[self] = "check"
               /\ Assert(life[(TableObj(hn[self]))] # "freed", 
                         "Failure of assertion at line 98, column 3 of macro called at line 270, column 5.")
               /\ IF tables[hn[self]].status = "aborted"
                     THEN /\ /\ ax' = [ax EXCEPT ![self] = hn[self]]
                             /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "alloc_next",
                                                                      pc        |->  "skip_aborted",
                                                                      ax        |->  ax[self] ] >>
                                                                  \o stack[self]]
                          /\ pc' = [pc EXCEPT ![self] = "alloc"]
                          /\ UNCHANGED << pt, pn, pc_ >>
                     ELSE /\ /\ pc_' = [pc_ EXCEPT ![self] = 0]
                             /\ pn' = [pn EXCEPT ![self] = hn[self]]
                             /\ pt' = [pt EXCEPT ![self] = ht[self]]
                             /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "promote",
                                                                      pc        |->  "claim_check",
                                                                      pt        |->  pt[self],
                                                                      pn        |->  pn[self],
                                                                      pc_       |->  pc_[self] ] >>
                                                                  \o stack[self]]
                          /\ pc' = [pc EXCEPT ![self] = "add"]
                          /\ ax' = ax
               /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                               seen, shy, count, active, life, waits, overflow, 
                               into, fits, done, cs, ci, cd, cent, cp, cm, 
                               hall, ht, hn, hi, hc, hend, hchunk, dent, dt, 
                               dx, nth, op, opk, fresh, tbl, pp, mm, ent, 
                               wait_at, helped, found, busy >>

skip_aborted(self) == /\ pc[self] = "skip_aborted"
                      /\ hn' = [hn EXCEPT ![self] = tables[hn[self]].next]
                      /\ pc' = [pc EXCEPT ![self] = "check"]
                      /\ UNCHANGED << start, tables, allocated, root, key, 
                                      ghost, seen, shy, count, active, life, 
                                      waits, overflow, into, fits, done, stack, 
                                      ax, cs, ci, cd, cent, cp, cm, pt, pn, 
                                      pc_, hall, ht, hi, hc, hend, hchunk, 
                                      dent, dt, dx, nth, op, opk, fresh, tbl, 
                                      pp, mm, ent, wait_at, helped, found, 
                                      busy >>

claim_check(self) == /\ pc[self] = "claim_check"
                     /\ IF done[self]
                           THEN /\ into' = [into EXCEPT ![self] = hn[self]]
                                /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                /\ hn' = [hn EXCEPT ![self] = Head(stack[self]).hn]
                                /\ hi' = [hi EXCEPT ![self] = Head(stack[self]).hi]
                                /\ hc' = [hc EXCEPT ![self] = Head(stack[self]).hc]
                                /\ hend' = [hend EXCEPT ![self] = Head(stack[self]).hend]
                                /\ hchunk' = [hchunk EXCEPT ![self] = Head(stack[self]).hchunk]
                                /\ hall' = [hall EXCEPT ![self] = Head(stack[self]).hall]
                                /\ ht' = [ht EXCEPT ![self] = Head(stack[self]).ht]
                                /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                           ELSE /\ pc' = [pc EXCEPT ![self] = "claim_loop"]
                                /\ UNCHANGED << into, stack, hall, ht, hn, hi, 
                                                hc, hend, hchunk >>
                     /\ UNCHANGED << start, tables, allocated, root, key, 
                                     ghost, seen, shy, count, active, life, 
                                     waits, overflow, fits, done, ax, cs, ci, 
                                     cd, cent, cp, cm, pt, pn, pc_, dent, dt, 
                                     dx, nth, op, opk, fresh, tbl, pp, mm, ent, 
                                     wait_at, helped, found, busy >>

claim_loop(self) == /\ pc[self] = "claim_loop"
                    /\ Assert(life[(TableObj(hn[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 287, column 5.")
                    /\ IF tables[hn[self]].claim >= tables[ht[self]].len
                          THEN /\ IF Incremental /\ ~hall[self]
                                     THEN /\ into' = [into EXCEPT ![self] = hn[self]]
                                          /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                          /\ hn' = [hn EXCEPT ![self] = Head(stack[self]).hn]
                                          /\ hi' = [hi EXCEPT ![self] = Head(stack[self]).hi]
                                          /\ hc' = [hc EXCEPT ![self] = Head(stack[self]).hc]
                                          /\ hend' = [hend EXCEPT ![self] = Head(stack[self]).hend]
                                          /\ hchunk' = [hchunk EXCEPT ![self] = Head(stack[self]).hchunk]
                                          /\ hall' = [hall EXCEPT ![self] = Head(stack[self]).hall]
                                          /\ ht' = [ht EXCEPT ![self] = Head(stack[self]).ht]
                                          /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                     ELSE /\ pc' = [pc EXCEPT ![self] = "wait"]
                                          /\ UNCHANGED << into, stack, hall, 
                                                          ht, hn, hi, hc, hend, 
                                                          hchunk >>
                          ELSE /\ pc' = [pc EXCEPT ![self] = "claim_chunk"]
                               /\ UNCHANGED << into, stack, hall, ht, hn, hi, 
                                               hc, hend, hchunk >>
                    /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                    seen, shy, count, active, life, waits, 
                                    overflow, fits, done, ax, cs, ci, cd, cent, 
                                    cp, cm, pt, pn, pc_, dent, dt, dx, nth, op, 
                                    opk, fresh, tbl, pp, mm, ent, wait_at, 
                                    helped, found, busy >>

claim_chunk(self) == /\ pc[self] = "claim_chunk"
                     /\ Assert(life[(TableObj(hn[self]))] # "freed", 
                               "Failure of assertion at line 98, column 3 of macro called at line 297, column 5.")
                     /\ hi' = [hi EXCEPT ![self] = tables[hn[self]].claim]
                     /\ hend' = [hend EXCEPT ![self] = tables[hn[self]].claim + hchunk[self]]
                     /\ hc' = [hc EXCEPT ![self] = 0]
                     /\ tables' = [tables EXCEPT ![hn[self]].claim = IF hend'[self] > tables[ht[self]].len THEN tables[ht[self]].len ELSE hend'[self]]
                     /\ pc' = [pc EXCEPT ![self] = "copying"]
                     /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                     shy, count, active, life, waits, overflow, 
                                     into, fits, done, stack, ax, cs, ci, cd, 
                                     cent, cp, cm, pt, pn, pc_, hall, ht, hn, 
                                     hchunk, dent, dt, dx, nth, op, opk, fresh, 
                                     tbl, pp, mm, ent, wait_at, helped, found, 
                                     busy >>

copying(self) == /\ pc[self] = "copying"
                 /\ IF hi[self] < hend[self] /\ hi[self] < tables[ht[self]].len
                       THEN /\ fits' = [fits EXCEPT ![self] = TRUE]
                            /\ /\ cd' = [cd EXCEPT ![self] = hn[self]]
                               /\ ci' = [ci EXCEPT ![self] = hi[self]]
                               /\ cs' = [cs EXCEPT ![self] = ht[self]]
                               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "copy_entry",
                                                                        pc        |->  "copied_one",
                                                                        cent      |->  cent[self],
                                                                        cp        |->  cp[self],
                                                                        cm        |->  cm[self],
                                                                        cs        |->  cs[self],
                                                                        ci        |->  ci[self],
                                                                        cd        |->  cd[self] ] >>
                                                                    \o stack[self]]
                            /\ cent' = [cent EXCEPT ![self] = Null]
                            /\ cp' = [cp EXCEPT ![self] = 0]
                            /\ cm' = [cm EXCEPT ![self] = 0]
                            /\ pc' = [pc EXCEPT ![self] = "mark"]
                            /\ UNCHANGED << pt, pn, pc_ >>
                       ELSE /\ /\ pc_' = [pc_ EXCEPT ![self] = hc[self]]
                               /\ pn' = [pn EXCEPT ![self] = hn[self]]
                               /\ pt' = [pt EXCEPT ![self] = ht[self]]
                               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "promote",
                                                                        pc        |->  "after_chunk",
                                                                        pt        |->  pt[self],
                                                                        pn        |->  pn[self],
                                                                        pc_       |->  pc_[self] ] >>
                                                                    \o stack[self]]
                            /\ pc' = [pc EXCEPT ![self] = "add"]
                            /\ UNCHANGED << fits, cs, ci, cd, cent, cp, cm >>
                 /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                 seen, shy, count, active, life, waits, 
                                 overflow, into, done, ax, hall, ht, hn, hi, 
                                 hc, hend, hchunk, dent, dt, dx, nth, op, opk, 
                                 fresh, tbl, pp, mm, ent, wait_at, helped, 
                                 found, busy >>

copied_one(self) == /\ pc[self] = "copied_one"
                    /\ IF fits[self]
                          THEN /\ hi' = [hi EXCEPT ![self] = hi[self] + 1]
                               /\ hc' = [hc EXCEPT ![self] = hc[self] + 1]
                               /\ pc' = [pc EXCEPT ![self] = "copying"]
                               /\ UNCHANGED tables
                          ELSE /\ Assert(life[(TableObj(hn[self]))] # "freed", 
                                         "Failure of assertion at line 98, column 3 of macro called at line 316, column 7.")
                               /\ tables' = [tables EXCEPT ![hn[self]].status = "aborted"]
                               /\ pc' = [pc EXCEPT ![self] = "check"]
                               /\ UNCHANGED << hi, hc >>
                    /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                    shy, count, active, life, waits, overflow, 
                                    into, fits, done, stack, ax, cs, ci, cd, 
                                    cent, cp, cm, pt, pn, pc_, hall, ht, hn, 
                                    hend, hchunk, dent, dt, dx, nth, op, opk, 
                                    fresh, tbl, pp, mm, ent, wait_at, helped, 
                                    found, busy >>

after_chunk(self) == /\ pc[self] = "after_chunk"
                     /\ IF done[self] \/ (Incremental /\ ~hall[self])
                           THEN /\ into' = [into EXCEPT ![self] = hn[self]]
                                /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                /\ hn' = [hn EXCEPT ![self] = Head(stack[self]).hn]
                                /\ hi' = [hi EXCEPT ![self] = Head(stack[self]).hi]
                                /\ hc' = [hc EXCEPT ![self] = Head(stack[self]).hc]
                                /\ hend' = [hend EXCEPT ![self] = Head(stack[self]).hend]
                                /\ hchunk' = [hchunk EXCEPT ![self] = Head(stack[self]).hchunk]
                                /\ hall' = [hall EXCEPT ![self] = Head(stack[self]).hall]
                                /\ ht' = [ht EXCEPT ![self] = Head(stack[self]).ht]
                                /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                           ELSE /\ IF tables[hn[self]].status = "aborted"
                                      THEN /\ pc' = [pc EXCEPT ![self] = "check"]
                                      ELSE /\ pc' = [pc EXCEPT ![self] = "claim_loop"]
                                /\ UNCHANGED << into, stack, hall, ht, hn, hi, 
                                                hc, hend, hchunk >>
                     /\ UNCHANGED << start, tables, allocated, root, key, 
                                     ghost, seen, shy, count, active, life, 
                                     waits, overflow, fits, done, ax, cs, ci, 
                                     cd, cent, cp, cm, pt, pn, pc_, dent, dt, 
                                     dx, nth, op, opk, fresh, tbl, pp, mm, ent, 
                                     wait_at, helped, found, busy >>

wait(self) == /\ pc[self] = "wait"
              /\ Assert(life[(TableObj(hn[self]))] # "freed", 
                        "Failure of assertion at line 98, column 3 of macro called at line 330, column 5.")
              /\ tables[hn[self]].status # "pending"
              /\ IF tables[hn[self]].status = "aborted"
                    THEN /\ pc' = [pc EXCEPT ![self] = "check"]
                         /\ UNCHANGED << into, stack, hall, ht, hn, hi, hc, 
                                         hend, hchunk >>
                    ELSE /\ into' = [into EXCEPT ![self] = hn[self]]
                         /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                         /\ hn' = [hn EXCEPT ![self] = Head(stack[self]).hn]
                         /\ hi' = [hi EXCEPT ![self] = Head(stack[self]).hi]
                         /\ hc' = [hc EXCEPT ![self] = Head(stack[self]).hc]
                         /\ hend' = [hend EXCEPT ![self] = Head(stack[self]).hend]
                         /\ hchunk' = [hchunk EXCEPT ![self] = Head(stack[self]).hchunk]
                         /\ hall' = [hall EXCEPT ![self] = Head(stack[self]).hall]
                         /\ ht' = [ht EXCEPT ![self] = Head(stack[self]).ht]
                         /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
              /\ UNCHANGED << start, tables, allocated, root, key, ghost, seen, 
                              shy, count, active, life, waits, overflow, fits, 
                              done, ax, cs, ci, cd, cent, cp, cm, pt, pn, pc_, 
                              dent, dt, dx, nth, op, opk, fresh, tbl, pp, mm, 
                              ent, wait_at, helped, found, busy >>

help(self) == enter(self) \/ find_next(self) \/ keeping_up(self)
                 \/ check(self) \/ skip_aborted(self) \/ claim_check(self)
                 \/ claim_loop(self) \/ claim_chunk(self) \/ copying(self)
                 \/ copied_one(self) \/ after_chunk(self) \/ wait(self)

decide(self) == /\ pc[self] = "decide"
                /\ IF ~Incremental \/ ~dent[self].borrowed
                      THEN /\ Assert(life[(dent[self].e)] = "live", 
                                     "Failure of assertion at line 108, column 3 of macro called at line 346, column 7.")
                           /\ life' = [life EXCEPT ![(dent[self].e)] = "retired"]
                           /\ waits' = [waits EXCEPT ![(dent[self].e)] = active]
                           /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                           /\ dx' = [dx EXCEPT ![self] = Head(stack[self]).dx]
                           /\ dent' = [dent EXCEPT ![self] = Head(stack[self]).dent]
                           /\ dt' = [dt EXCEPT ![self] = Head(stack[self]).dt]
                           /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                      ELSE /\ dx' = [dx EXCEPT ![self] = root]
                           /\ pc' = [pc EXCEPT ![self] = "later"]
                           /\ UNCHANGED << life, waits, stack, dent, dt >>
                /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                seen, shy, count, active, overflow, into, fits, 
                                done, ax, cs, ci, cd, cent, cp, cm, pt, pn, 
                                pc_, hall, ht, hn, hi, hc, hend, hchunk, nth, 
                                op, opk, fresh, tbl, pp, mm, ent, wait_at, 
                                helped, found, busy >>

later(self) == /\ pc[self] = "later"
               /\ LET later_tables == {y \in Tables : y >= dt[self] /\ y <= allocated} IN
                    IF dx[self] \in later_tables
                       THEN /\ Assert(life[(dent[self].e)] = "live", 
                                      "Failure of assertion at line 108, column 3 of macro called at line 357, column 9.")
                            /\ life' = [life EXCEPT ![(dent[self].e)] = "retired"]
                            /\ waits' = [waits EXCEPT ![(dent[self].e)] = active]
                            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                            /\ dx' = [dx EXCEPT ![self] = Head(stack[self]).dx]
                            /\ dent' = [dent EXCEPT ![self] = Head(stack[self]).dent]
                            /\ dt' = [dt EXCEPT ![self] = Head(stack[self]).dt]
                            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       ELSE /\ pc' = [pc EXCEPT ![self] = "find_prev"]
                            /\ UNCHANGED << life, waits, stack, dent, dt, dx >>
               /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                               seen, shy, count, active, overflow, into, fits, 
                               done, ax, cs, ci, cd, cent, cp, cm, pt, pn, pc_, 
                               hall, ht, hn, hi, hc, hend, hchunk, nth, op, 
                               opk, fresh, tbl, pp, mm, ent, wait_at, helped, 
                               found, busy >>

find_prev(self) == /\ pc[self] = "find_prev"
                   /\ Assert(life[(TableObj(dx[self]))] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 362, column 5.")
                   /\ IF tables[dx[self]].next = dt[self]
                         THEN /\ pc' = [pc EXCEPT ![self] = "push"]
                              /\ dx' = dx
                         ELSE /\ dx' = [dx EXCEPT ![self] = tables[dx[self]].next]
                              /\ pc' = [pc EXCEPT ![self] = "find_prev"]
                   /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                   seen, shy, count, active, life, waits, 
                                   overflow, into, fits, done, stack, ax, cs, 
                                   ci, cd, cent, cp, cm, pt, pn, pc_, hall, ht, 
                                   hn, hi, hc, hend, hchunk, dent, dt, nth, op, 
                                   opk, fresh, tbl, pp, mm, ent, wait_at, 
                                   helped, found, busy >>

push(self) == /\ pc[self] = "push"
              /\ Assert(life[(TableObj(dx[self]))] # "freed", 
                        "Failure of assertion at line 98, column 3 of macro called at line 370, column 5.")
              /\ tables' = [tables EXCEPT ![dx[self]].deferred = tables[dx[self]].deferred \cup {dent[self].e}]
              /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
              /\ dx' = [dx EXCEPT ![self] = Head(stack[self]).dx]
              /\ dent' = [dent EXCEPT ![self] = Head(stack[self]).dent]
              /\ dt' = [dt EXCEPT ![self] = Head(stack[self]).dt]
              /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
              /\ UNCHANGED << start, allocated, root, key, ghost, seen, shy, 
                              count, active, life, waits, overflow, into, fits, 
                              done, ax, cs, ci, cd, cent, cp, cm, pt, pn, pc_, 
                              hall, ht, hn, hi, hc, hend, hchunk, nth, op, opk, 
                              fresh, tbl, pp, mm, ent, wait_at, helped, found, 
                              busy >>

defer_retire(self) == decide(self) \/ later(self) \/ find_prev(self)
                         \/ push(self)

begin_op(self) == /\ pc[self] = "begin_op"
                  /\ IF nth[self] < NOps
                        THEN /\ nth' = [nth EXCEPT ![self] = nth[self] + 1]
                             /\ \E o \in Ops:
                                  \E x \in Keys:
                                    /\ op' = [op EXCEPT ![self] = o]
                                    /\ opk' = [opk EXCEPT ![self] = IF o \in {"clear", "iter"} THEN 1 ELSE x]
                             /\ fresh' = [fresh EXCEPT ![self] = EntryOf(self, nth'[self])]
                             /\ key' = [key EXCEPT ![fresh'[self]] = opk'[self]]
                             /\ active' = (active \cup {self})
                             /\ seen' = [seen EXCEPT ![self] = [x \in Keys |-> {ghost[x]} \cup IF x \in shy THEN {0} ELSE {}]]
                             /\ found' = [found EXCEPT ![self] = {}]
                             /\ helped' = [helped EXCEPT ![self] = FALSE]
                             /\ pc' = [pc EXCEPT ![self] = "load_root"]
                        ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                             /\ UNCHANGED << key, seen, active, nth, op, opk, 
                                             fresh, helped, found >>
                  /\ UNCHANGED << start, tables, allocated, root, ghost, shy, 
                                  count, life, waits, overflow, into, fits, 
                                  done, stack, ax, cs, ci, cd, cent, cp, cm, 
                                  pt, pn, pc_, hall, ht, hn, hi, hc, hend, 
                                  hchunk, dent, dt, dx, tbl, pp, mm, ent, 
                                  wait_at, busy >>

load_root(self) == /\ pc[self] = "load_root"
                   /\ tbl' = [tbl EXCEPT ![self] = root]
                   /\ IF op[self] \in {"clear", "iter"}
                         THEN /\ pc' = [pc EXCEPT ![self] = "linearize"]
                         ELSE /\ pc' = [pc EXCEPT ![self] = "start_probe"]
                   /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                   seen, shy, count, active, life, waits, 
                                   overflow, into, fits, done, stack, ax, cs, 
                                   ci, cd, cent, cp, cm, pt, pn, pc_, hall, ht, 
                                   hn, hi, hc, hend, hchunk, dent, dt, dx, nth, 
                                   op, opk, fresh, pp, mm, ent, wait_at, 
                                   helped, found, busy >>

start_probe(self) == /\ pc[self] = "start_probe"
                     /\ pp' = [pp EXCEPT ![self] = 0]
                     /\ wait_at' = [wait_at EXCEPT ![self] = -1]
                     /\ pc' = [pc EXCEPT ![self] = "load_meta"]
                     /\ UNCHANGED << start, tables, allocated, root, key, 
                                     ghost, seen, shy, count, active, life, 
                                     waits, overflow, into, fits, done, stack, 
                                     ax, cs, ci, cd, cent, cp, cm, pt, pn, pc_, 
                                     hall, ht, hn, hi, hc, hend, hchunk, dent, 
                                     dt, dx, nth, op, opk, fresh, tbl, mm, ent, 
                                     helped, found, busy >>

load_meta(self) == /\ pc[self] = "load_meta"
                   /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 402, column 7.")
                   /\ IF pp[self] > Limit(tables[tbl[self]].len)
                         THEN /\ pc' = [pc EXCEPT ![self] = "next_table"]
                              /\ UNCHANGED << pp, mm, ent >>
                         ELSE /\ mm' = [mm EXCEPT ![self] = tables[tbl[self]].meta[Probe(opk[self], tables[tbl[self]].len, pp[self])]]
                              /\ IF mm'[self] = EMPTY /\ op[self] \in {"get", "remove", "update"}
                                    THEN /\ ent' = [ent EXCEPT ![self] = Null]
                                         /\ pc' = [pc EXCEPT ![self] = "finish"]
                                         /\ pp' = pp
                                    ELSE /\ IF mm'[self] = EMPTY
                                               THEN /\ pc' = [pc EXCEPT ![self] = "insert_at"]
                                                    /\ pp' = pp
                                               ELSE /\ IF mm'[self] # opk[self]
                                                          THEN /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                                                               /\ pc' = [pc EXCEPT ![self] = "load_meta"]
                                                          ELSE /\ pc' = [pc EXCEPT ![self] = "load_entry"]
                                                               /\ pp' = pp
                                         /\ ent' = ent
                   /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                   seen, shy, count, active, life, waits, 
                                   overflow, into, fits, done, stack, ax, cs, 
                                   ci, cd, cent, cp, cm, pt, pn, pc_, hall, ht, 
                                   hn, hi, hc, hend, hchunk, dent, dt, dx, nth, 
                                   op, opk, fresh, tbl, wait_at, helped, found, 
                                   busy >>

load_entry(self) == /\ pc[self] = "load_entry"
                    /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 418, column 7.")
                    /\ ent' = [ent EXCEPT ![self] = tables[tbl[self]].slots[Probe(opk[self], tables[tbl[self]].len, pp[self])]]
                    /\ pc' = [pc EXCEPT ![self] = "examine"]
                    /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                    seen, shy, count, active, life, waits, 
                                    overflow, into, fits, done, stack, ax, cs, 
                                    ci, cd, cent, cp, cm, pt, pn, pc_, hall, 
                                    ht, hn, hi, hc, hend, hchunk, dent, dt, dx, 
                                    nth, op, opk, fresh, tbl, pp, mm, wait_at, 
                                    helped, found, busy >>

examine(self) == /\ pc[self] = "examine"
                 /\ IF ent[self].e = 0
                       THEN /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                            /\ pc' = [pc EXCEPT ![self] = "load_meta"]
                            /\ UNCHANGED wait_at
                       ELSE /\ Assert(life[(ent[self].e)] # "freed", 
                                      "Failure of assertion at line 98, column 3 of macro called at line 425, column 9.")
                            /\ IF key[ent[self].e] # opk[self]
                                  THEN /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                                       /\ pc' = [pc EXCEPT ![self] = "load_meta"]
                                       /\ UNCHANGED wait_at
                                  ELSE /\ IF op[self] = "get"
                                             THEN /\ IF ent[self].copied
                                                        THEN /\ pc' = [pc EXCEPT ![self] = "next_table"]
                                                        ELSE /\ pc' = [pc EXCEPT ![self] = "finish"]
                                                  /\ UNCHANGED wait_at
                                             ELSE /\ IF ent[self].copying
                                                        THEN /\ wait_at' = [wait_at EXCEPT ![self] = Probe(opk[self], tables[tbl[self]].len, pp[self])]
                                                             /\ pc' = [pc EXCEPT ![self] = "next_table"]
                                                        ELSE /\ IF op[self] = "try"
                                                                   THEN /\ pc' = [pc EXCEPT ![self] = "finish"]
                                                                   ELSE /\ pc' = [pc EXCEPT ![self] = "cas"]
                                                             /\ UNCHANGED wait_at
                                       /\ pp' = pp
                 /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                 seen, shy, count, active, life, waits, 
                                 overflow, into, fits, done, stack, ax, cs, ci, 
                                 cd, cent, cp, cm, pt, pn, pc_, hall, ht, hn, 
                                 hi, hc, hend, hchunk, dent, dt, dx, nth, op, 
                                 opk, fresh, tbl, mm, ent, helped, found, busy >>

cas(self) == /\ pc[self] = "cas"
             /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                       "Failure of assertion at line 98, column 3 of macro called at line 443, column 7.")
             /\ LET i == Probe(opk[self], tables[tbl[self]].len, pp[self]) IN
                  IF tables[tbl[self]].slots[i] = ent[self]
                     THEN /\ Assert(ghost[opk[self]] = ent[self].e, 
                                    "Failure of assertion at line 446, column 11.")
                          /\ tables' = [tables EXCEPT ![tbl[self]].slots[i] = IF op[self] = "remove" THEN Tombstone ELSE Plain(fresh[self])]
                          /\ shy' = (IF FALSE THEN shy \cup {opk[self]} ELSE shy \ {opk[self]})
                          /\ ghost' = [ghost EXCEPT ![opk[self]] = IF op[self] = "remove" THEN 0 ELSE fresh[self]]
                          /\ seen' = [t \in Threads |-> [seen[t] EXCEPT ![opk[self]] = @ \cup {(IF op[self] = "remove" THEN 0 ELSE fresh[self])}]]
                          /\ /\ dent' = [dent EXCEPT ![self] = ent[self]]
                             /\ dt' = [dt EXCEPT ![self] = tbl[self]]
                             /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "defer_retire",
                                                                      pc        |->  "after_cas",
                                                                      dx        |->  dx[self],
                                                                      dent      |->  dent[self],
                                                                      dt        |->  dt[self] ] >>
                                                                  \o stack[self]]
                          /\ dx' = [dx EXCEPT ![self] = 0]
                          /\ pc' = [pc EXCEPT ![self] = "decide"]
                          /\ UNCHANGED << pp, ent >>
                     ELSE /\ ent' = [ent EXCEPT ![self] = tables[tbl[self]].slots[i]]
                          /\ IF ent'[self].e = 0
                                THEN /\ IF op[self] \in {"remove", "update"}
                                           THEN /\ pc' = [pc EXCEPT ![self] = "finish"]
                                                /\ pp' = pp
                                           ELSE /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                                                /\ pc' = [pc EXCEPT ![self] = "load_meta"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "examine"]
                                     /\ pp' = pp
                          /\ UNCHANGED << tables, ghost, seen, shy, stack, 
                                          dent, dt, dx >>
             /\ UNCHANGED << start, allocated, root, key, count, active, life, 
                             waits, overflow, into, fits, done, ax, cs, ci, cd, 
                             cent, cp, cm, pt, pn, pc_, hall, ht, hn, hi, hc, 
                             hend, hchunk, nth, op, opk, fresh, tbl, mm, 
                             wait_at, helped, found, busy >>

after_cas(self) == /\ pc[self] = "after_cas"
                   /\ IF op[self] = "remove"
                         THEN /\ tables' = [tables EXCEPT ![tbl[self]].meta[Probe(opk[self], tables[tbl[self]].len, pp[self])] = TOMB]
                              /\ count' = count - 1
                         ELSE /\ TRUE
                              /\ UNCHANGED << tables, count >>
                   /\ Assert(life[(ent[self].e)] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 470, column 7.")
                   /\ pc' = [pc EXCEPT ![self] = "end_op"]
                   /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                   shy, active, life, waits, overflow, into, 
                                   fits, done, stack, ax, cs, ci, cd, cent, cp, 
                                   cm, pt, pn, pc_, hall, ht, hn, hi, hc, hend, 
                                   hchunk, dent, dt, dx, nth, op, opk, fresh, 
                                   tbl, pp, mm, ent, wait_at, helped, found, 
                                   busy >>

insert_at(self) == /\ pc[self] = "insert_at"
                   /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 473, column 7.")
                   /\ LET i == Probe(opk[self], tables[tbl[self]].len, pp[self]) IN
                        IF tables[tbl[self]].slots[i] = Null
                           THEN /\ Assert(ghost[opk[self]] = 0, 
                                          "Failure of assertion at line 476, column 11.")
                                /\ tables' = [tables EXCEPT ![tbl[self]].slots[i] = Plain(fresh[self])]
                                /\ shy' = (IF TRUE THEN shy \cup {opk[self]} ELSE shy \ {opk[self]})
                                /\ ghost' = [ghost EXCEPT ![opk[self]] = fresh[self]]
                                /\ seen' = [t \in Threads |-> [seen[t] EXCEPT ![opk[self]] = @ \cup {fresh[self]}]]
                                /\ pc' = [pc EXCEPT ![self] = "insert_meta"]
                                /\ ent' = ent
                           ELSE /\ ent' = [ent EXCEPT ![self] = tables[tbl[self]].slots[i]]
                                /\ pc' = [pc EXCEPT ![self] = "lost_slot"]
                                /\ UNCHANGED << tables, ghost, seen, shy >>
                   /\ UNCHANGED << start, allocated, root, key, count, active, 
                                   life, waits, overflow, into, fits, done, 
                                   stack, ax, cs, ci, cd, cent, cp, cm, pt, pn, 
                                   pc_, hall, ht, hn, hi, hc, hend, hchunk, 
                                   dent, dt, dx, nth, op, opk, fresh, tbl, pp, 
                                   mm, wait_at, helped, found, busy >>

insert_meta(self) == /\ pc[self] = "insert_meta"
                     /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                               "Failure of assertion at line 98, column 3 of macro called at line 486, column 7.")
                     /\ tables' = [tables EXCEPT ![tbl[self]].meta[Probe(opk[self], tables[tbl[self]].len, pp[self])] = opk[self]]
                     /\ count' = count + 1
                     /\ shy' = (IF ghost[opk[self]] = fresh[self] THEN shy \ {opk[self]} ELSE shy)
                     /\ pc' = [pc EXCEPT ![self] = "end_op"]
                     /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                     active, life, waits, overflow, into, fits, 
                                     done, stack, ax, cs, ci, cd, cent, cp, cm, 
                                     pt, pn, pc_, hall, ht, hn, hi, hc, hend, 
                                     hchunk, dent, dt, dx, nth, op, opk, fresh, 
                                     tbl, pp, mm, ent, wait_at, helped, found, 
                                     busy >>

lost_slot(self) == /\ pc[self] = "lost_slot"
                   /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 492, column 7.")
                   /\ IF ent[self].e # 0
                         THEN /\ Assert(life[(ent[self].e)] # "freed", 
                                        "Failure of assertion at line 98, column 3 of macro called at line 494, column 9.")
                         ELSE /\ TRUE
                   /\ LET i == Probe(opk[self], tables[tbl[self]].len, pp[self]) IN
                        IF tables[tbl[self]].meta[i] = EMPTY
                           THEN /\ tables' = [tables EXCEPT ![tbl[self]].meta[i] = IF ent[self].e = 0 THEN TOMB ELSE key[ent[self].e]]
                           ELSE /\ TRUE
                                /\ UNCHANGED tables
                   /\ pc' = [pc EXCEPT ![self] = "examine"]
                   /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                   shy, count, active, life, waits, overflow, 
                                   into, fits, done, stack, ax, cs, ci, cd, 
                                   cent, cp, cm, pt, pn, pc_, hall, ht, hn, hi, 
                                   hc, hend, hchunk, dent, dt, dx, nth, op, 
                                   opk, fresh, tbl, pp, mm, ent, wait_at, 
                                   helped, found, busy >>

next_table(self) == /\ pc[self] = "next_table"
                    /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 503, column 7.")
                    /\ IF op[self] = "get"
                          THEN /\ IF Incremental /\ tables[tbl[self]].next # 0
                                     THEN /\ tbl' = [tbl EXCEPT ![self] = tables[tbl[self]].next]
                                          /\ pc' = [pc EXCEPT ![self] = "start_probe"]
                                          /\ ent' = ent
                                     ELSE /\ ent' = [ent EXCEPT ![self] = Null]
                                          /\ pc' = [pc EXCEPT ![self] = "finish"]
                                          /\ tbl' = tbl
                               /\ UNCHANGED << stack, ax >>
                          ELSE /\ IF op[self] \in {"remove", "update"} /\ (IF Incremental THEN tables[tbl[self]].next = 0 ELSE wait_at[self] = -1)
                                     THEN /\ ent' = [ent EXCEPT ![self] = Null]
                                          /\ pc' = [pc EXCEPT ![self] = "finish"]
                                          /\ UNCHANGED << stack, ax >>
                                     ELSE /\ IF op[self] \in {"insert", "try"} /\ tables[tbl[self]].next = 0
                                                THEN /\ /\ ax' = [ax EXCEPT ![self] = tbl[self]]
                                                        /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "alloc_next",
                                                                                                 pc        |->  "help_out",
                                                                                                 ax        |->  ax[self] ] >>
                                                                                             \o stack[self]]
                                                     /\ pc' = [pc EXCEPT ![self] = "alloc"]
                                                ELSE /\ pc' = [pc EXCEPT ![self] = "help_out"]
                                                     /\ UNCHANGED << stack, ax >>
                                          /\ ent' = ent
                               /\ tbl' = tbl
                    /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                    seen, shy, count, active, life, waits, 
                                    overflow, into, fits, done, cs, ci, cd, 
                                    cent, cp, cm, pt, pn, pc_, hall, ht, hn, 
                                    hi, hc, hend, hchunk, dent, dt, dx, nth, 
                                    op, opk, fresh, pp, mm, wait_at, helped, 
                                    found, busy >>

help_out(self) == /\ pc[self] = "help_out"
                  /\ IF ~Incremental
                        THEN /\ /\ hall' = [hall EXCEPT ![self] = TRUE]
                                /\ ht' = [ht EXCEPT ![self] = tbl[self]]
                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "help",
                                                                         pc        |->  "wait_copy",
                                                                         hn        |->  hn[self],
                                                                         hi        |->  hi[self],
                                                                         hc        |->  hc[self],
                                                                         hend      |->  hend[self],
                                                                         hchunk    |->  hchunk[self],
                                                                         hall      |->  hall[self],
                                                                         ht        |->  ht[self] ] >>
                                                                     \o stack[self]]
                             /\ hn' = [hn EXCEPT ![self] = 0]
                             /\ hi' = [hi EXCEPT ![self] = 0]
                             /\ hc' = [hc EXCEPT ![self] = 0]
                             /\ hend' = [hend EXCEPT ![self] = 0]
                             /\ hchunk' = [hchunk EXCEPT ![self] = 0]
                             /\ pc' = [pc EXCEPT ![self] = "enter"]
                             /\ UNCHANGED helped
                        ELSE /\ IF ~helped[self]
                                   THEN /\ helped' = [helped EXCEPT ![self] = TRUE]
                                        /\ /\ hall' = [hall EXCEPT ![self] = FALSE]
                                           /\ ht' = [ht EXCEPT ![self] = 0]
                                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "help",
                                                                                    pc        |->  "wait_copy",
                                                                                    hn        |->  hn[self],
                                                                                    hi        |->  hi[self],
                                                                                    hc        |->  hc[self],
                                                                                    hend      |->  hend[self],
                                                                                    hchunk    |->  hchunk[self],
                                                                                    hall      |->  hall[self],
                                                                                    ht        |->  ht[self] ] >>
                                                                                \o stack[self]]
                                        /\ hn' = [hn EXCEPT ![self] = 0]
                                        /\ hi' = [hi EXCEPT ![self] = 0]
                                        /\ hc' = [hc EXCEPT ![self] = 0]
                                        /\ hend' = [hend EXCEPT ![self] = 0]
                                        /\ hchunk' = [hchunk EXCEPT ![self] = 0]
                                        /\ pc' = [pc EXCEPT ![self] = "enter"]
                                   ELSE /\ pc' = [pc EXCEPT ![self] = "wait_copy"]
                                        /\ UNCHANGED << stack, hall, ht, hn, 
                                                        hi, hc, hend, hchunk, 
                                                        helped >>
                  /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                  seen, shy, count, active, life, waits, 
                                  overflow, into, fits, done, ax, cs, ci, cd, 
                                  cent, cp, cm, pt, pn, pc_, dent, dt, dx, nth, 
                                  op, opk, fresh, tbl, pp, mm, ent, wait_at, 
                                  found, busy >>

wait_copy(self) == /\ pc[self] = "wait_copy"
                   /\ IF Incremental
                         THEN /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                                        "Failure of assertion at line 98, column 3 of macro called at line 527, column 9.")
                              /\ IF wait_at[self] = -1 THEN TRUE ELSE tables[tbl[self]].slots[wait_at[self]].copied
                              /\ tbl' = [tbl EXCEPT ![self] = tables[tbl[self]].next]
                         ELSE /\ tbl' = [tbl EXCEPT ![self] = into[self]]
                   /\ pc' = [pc EXCEPT ![self] = "start_probe"]
                   /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                   seen, shy, count, active, life, waits, 
                                   overflow, into, fits, done, stack, ax, cs, 
                                   ci, cd, cent, cp, cm, pt, pn, pc_, hall, ht, 
                                   hn, hi, hc, hend, hchunk, dent, dt, dx, nth, 
                                   op, opk, fresh, pp, mm, ent, wait_at, 
                                   helped, found, busy >>

linearize(self) == /\ pc[self] = "linearize"
                   /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                             "Failure of assertion at line 98, column 3 of macro called at line 537, column 7.")
                   /\ IF Incremental /\ tables[tbl[self]].next # 0
                         THEN /\ /\ hall' = [hall EXCEPT ![self] = TRUE]
                                 /\ ht' = [ht EXCEPT ![self] = 0]
                                 /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "help",
                                                                          pc        |->  "linearized",
                                                                          hn        |->  hn[self],
                                                                          hi        |->  hi[self],
                                                                          hc        |->  hc[self],
                                                                          hend      |->  hend[self],
                                                                          hchunk    |->  hchunk[self],
                                                                          hall      |->  hall[self],
                                                                          ht        |->  ht[self] ] >>
                                                                      \o stack[self]]
                              /\ hn' = [hn EXCEPT ![self] = 0]
                              /\ hi' = [hi EXCEPT ![self] = 0]
                              /\ hc' = [hc EXCEPT ![self] = 0]
                              /\ hend' = [hend EXCEPT ![self] = 0]
                              /\ hchunk' = [hchunk EXCEPT ![self] = 0]
                              /\ pc' = [pc EXCEPT ![self] = "enter"]
                              /\ UNCHANGED << pp, busy >>
                         ELSE /\ pp' = [pp EXCEPT ![self] = 0]
                              /\ busy' = [busy EXCEPT ![self] = FALSE]
                              /\ pc' = [pc EXCEPT ![self] = "scan"]
                              /\ UNCHANGED << stack, hall, ht, hn, hi, hc, 
                                              hend, hchunk >>
                   /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                   seen, shy, count, active, life, waits, 
                                   overflow, into, fits, done, ax, cs, ci, cd, 
                                   cent, cp, cm, pt, pn, pc_, dent, dt, dx, 
                                   nth, op, opk, fresh, tbl, mm, ent, wait_at, 
                                   helped, found >>

linearized(self) == /\ pc[self] = "linearized"
                    /\ tbl' = [tbl EXCEPT ![self] = into[self]]
                    /\ pc' = [pc EXCEPT ![self] = "linearize"]
                    /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                    seen, shy, count, active, life, waits, 
                                    overflow, into, fits, done, stack, ax, cs, 
                                    ci, cd, cent, cp, cm, pt, pn, pc_, hall, 
                                    ht, hn, hi, hc, hend, hchunk, dent, dt, dx, 
                                    nth, op, opk, fresh, pp, mm, ent, wait_at, 
                                    helped, found, busy >>

scan(self) == /\ pc[self] = "scan"
              /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                        "Failure of assertion at line 98, column 3 of macro called at line 549, column 7.")
              /\ IF pp[self] >= tables[tbl[self]].len
                    THEN /\ IF op[self] = "clear" /\ busy[self]
                               THEN /\ /\ hall' = [hall EXCEPT ![self] = TRUE]
                                       /\ ht' = [ht EXCEPT ![self] = tbl[self]]
                                       /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "help",
                                                                                pc        |->  "linearized",
                                                                                hn        |->  hn[self],
                                                                                hi        |->  hi[self],
                                                                                hc        |->  hc[self],
                                                                                hend      |->  hend[self],
                                                                                hchunk    |->  hchunk[self],
                                                                                hall      |->  hall[self],
                                                                                ht        |->  ht[self] ] >>
                                                                            \o stack[self]]
                                    /\ hn' = [hn EXCEPT ![self] = 0]
                                    /\ hi' = [hi EXCEPT ![self] = 0]
                                    /\ hc' = [hc EXCEPT ![self] = 0]
                                    /\ hend' = [hend EXCEPT ![self] = 0]
                                    /\ hchunk' = [hchunk EXCEPT ![self] = 0]
                                    /\ pc' = [pc EXCEPT ![self] = "enter"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "finish"]
                                    /\ UNCHANGED << stack, hall, ht, hn, hi, 
                                                    hc, hend, hchunk >>
                         /\ UNCHANGED << pp, mm >>
                    ELSE /\ mm' = [mm EXCEPT ![self] = tables[tbl[self]].meta[pp[self]]]
                         /\ IF op[self] = "iter" /\ mm'[self] \in {EMPTY, TOMB}
                               THEN /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                                    /\ pc' = [pc EXCEPT ![self] = "scan"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "scan_entry"]
                                    /\ pp' = pp
                         /\ UNCHANGED << stack, hall, ht, hn, hi, hc, hend, 
                                         hchunk >>
              /\ UNCHANGED << start, tables, allocated, root, key, ghost, seen, 
                              shy, count, active, life, waits, overflow, into, 
                              fits, done, ax, cs, ci, cd, cent, cp, cm, pt, pn, 
                              pc_, dent, dt, dx, nth, op, opk, fresh, tbl, ent, 
                              wait_at, helped, found, busy >>

scan_entry(self) == /\ pc[self] = "scan_entry"
                    /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                              "Failure of assertion at line 98, column 3 of macro called at line 565, column 7.")
                    /\ ent' = [ent EXCEPT ![self] = tables[tbl[self]].slots[pp[self]]]
                    /\ IF ent'[self].e = 0
                          THEN /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                               /\ pc' = [pc EXCEPT ![self] = "scan"]
                               /\ UNCHANGED << found, busy >>
                          ELSE /\ Assert(life[(ent'[self].e)] # "freed", 
                                         "Failure of assertion at line 98, column 3 of macro called at line 571, column 9.")
                               /\ IF op[self] = "iter"
                                     THEN /\ Assert((\E x \in found[self] : key[x] = key[ent'[self].e]) => 0 \in seen[self][key[ent'[self].e]], 
                                                    "Failure of assertion at line 574, column 11.")
                                          /\ Assert(ent'[self].e \in seen[self][key[ent'[self].e]], 
                                                    "Failure of assertion at line 575, column 11.")
                                          /\ found' = [found EXCEPT ![self] = found[self] \cup {ent'[self].e}]
                                          /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                                          /\ pc' = [pc EXCEPT ![self] = "scan"]
                                          /\ busy' = busy
                                     ELSE /\ IF ent'[self].copying
                                                THEN /\ busy' = [busy EXCEPT ![self] = TRUE]
                                                     /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
                                                     /\ pc' = [pc EXCEPT ![self] = "scan"]
                                                ELSE /\ pc' = [pc EXCEPT ![self] = "sweep"]
                                                     /\ UNCHANGED << pp, busy >>
                                          /\ found' = found
                    /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                    seen, shy, count, active, life, waits, 
                                    overflow, into, fits, done, stack, ax, cs, 
                                    ci, cd, cent, cp, cm, pt, pn, pc_, hall, 
                                    ht, hn, hi, hc, hend, hchunk, dent, dt, dx, 
                                    nth, op, opk, fresh, tbl, mm, wait_at, 
                                    helped >>

sweep(self) == /\ pc[self] = "sweep"
               /\ Assert(life[(TableObj(tbl[self]))] # "freed", 
                         "Failure of assertion at line 98, column 3 of macro called at line 586, column 7.")
               /\ IF tables[tbl[self]].slots[pp[self]] = ent[self]
                     THEN /\ Assert(ghost[key[ent[self].e]] = ent[self].e, 
                                    "Failure of assertion at line 588, column 9.")
                          /\ tables' = [tables EXCEPT ![tbl[self]].slots[pp[self]] = Tombstone]
                          /\ shy' = (IF FALSE THEN shy \cup {(key[ent[self].e])} ELSE shy \ {(key[ent[self].e])})
                          /\ ghost' = [ghost EXCEPT ![(key[ent[self].e])] = 0]
                          /\ seen' = [t \in Threads |-> [seen[t] EXCEPT ![(key[ent[self].e])] = @ \cup {0}]]
                          /\ pc' = [pc EXCEPT ![self] = "sweep_meta"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "scan_entry"]
                          /\ UNCHANGED << tables, ghost, seen, shy >>
               /\ UNCHANGED << start, allocated, root, key, count, active, 
                               life, waits, overflow, into, fits, done, stack, 
                               ax, cs, ci, cd, cent, cp, cm, pt, pn, pc_, hall, 
                               ht, hn, hi, hc, hend, hchunk, dent, dt, dx, nth, 
                               op, opk, fresh, tbl, pp, mm, ent, wait_at, 
                               helped, found, busy >>

sweep_meta(self) == /\ pc[self] = "sweep_meta"
                    /\ tables' = [tables EXCEPT ![tbl[self]].meta[pp[self]] = TOMB]
                    /\ count' = count - 1
                    /\ /\ dent' = [dent EXCEPT ![self] = ent[self]]
                       /\ dt' = [dt EXCEPT ![self] = tbl[self]]
                       /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "defer_retire",
                                                                pc        |->  "swept",
                                                                dx        |->  dx[self],
                                                                dent      |->  dent[self],
                                                                dt        |->  dt[self] ] >>
                                                            \o stack[self]]
                    /\ dx' = [dx EXCEPT ![self] = 0]
                    /\ pc' = [pc EXCEPT ![self] = "decide"]
                    /\ UNCHANGED << start, allocated, root, key, ghost, seen, 
                                    shy, active, life, waits, overflow, into, 
                                    fits, done, ax, cs, ci, cd, cent, cp, cm, 
                                    pt, pn, pc_, hall, ht, hn, hi, hc, hend, 
                                    hchunk, nth, op, opk, fresh, tbl, pp, mm, 
                                    ent, wait_at, helped, found, busy >>

swept(self) == /\ pc[self] = "swept"
               /\ pp' = [pp EXCEPT ![self] = pp[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "scan"]
               /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                               seen, shy, count, active, life, waits, overflow, 
                               into, fits, done, stack, ax, cs, ci, cd, cent, 
                               cp, cm, pt, pn, pc_, hall, ht, hn, hi, hc, hend, 
                               hchunk, dent, dt, dx, nth, op, opk, fresh, tbl, 
                               mm, ent, wait_at, helped, found, busy >>

finish(self) == /\ pc[self] = "finish"
                /\ IF op[self] \in {"clear"}
                      THEN /\ Assert(\A x \in Keys : 0 \in seen[self][x], 
                                     "Failure of assertion at line 605, column 9.")
                           /\ shy' = shy
                      ELSE /\ IF op[self] = "iter"
                                 THEN /\ Assert(\A x \in Keys : 0 \in seen[self][x] \/ \E e \in found[self] : key[e] = x, 
                                                "Failure of assertion at line 607, column 9.")
                                      /\ Assert(\A e \in found[self] : life[e] # "freed", 
                                                "Failure of assertion at line 608, column 9.")
                                      /\ shy' = shy \ {x \in Keys : ghost[x] \in found[self]}
                                 ELSE /\ Assert(ent[self].e \in seen[self][opk[self]], 
                                                "Failure of assertion at line 611, column 9.")
                                      /\ IF ent[self].e # 0
                                            THEN /\ Assert(life[(ent[self].e)] # "freed", 
                                                           "Failure of assertion at line 98, column 3 of macro called at line 613, column 11.")
                                                 /\ shy' = (IF ghost[opk[self]] = ent[self].e THEN shy \ {opk[self]} ELSE shy)
                                            ELSE /\ TRUE
                                                 /\ shy' = shy
                /\ pc' = [pc EXCEPT ![self] = "end_op"]
                /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                seen, count, active, life, waits, overflow, 
                                into, fits, done, stack, ax, cs, ci, cd, cent, 
                                cp, cm, pt, pn, pc_, hall, ht, hn, hi, hc, 
                                hend, hchunk, dent, dt, dx, nth, op, opk, 
                                fresh, tbl, pp, mm, ent, wait_at, helped, 
                                found, busy >>

end_op(self) == /\ pc[self] = "end_op"
                /\ LET left == active \ {self} IN
                     LET w1 == [o \in Objects |-> waits[o] \ {self}] IN
                       LET f1 == {o \in Objects : life[o] = "retired" /\ w1[o] = {}} IN
                         LET late == UNION {tables[x].deferred : x \in {y \in Tables : TableObj(y) \in f1}} IN
                           /\ Assert(\A e \in late : life[e] = "live", 
                                     "Failure of assertion at line 624, column 9.")
                           /\ active' = left
                           /\ waits' = [o \in Objects |-> IF o \in late THEN left ELSE w1[o]]
                           /\ life' = [o \in Objects |->
                                         IF o \in f1 THEN "freed"
                                         ELSE IF o \in late THEN (IF left = {} THEN "freed" ELSE "retired") ELSE life[o]]
                /\ ent' = [ent EXCEPT ![self] = Null]
                /\ pc' = [pc EXCEPT ![self] = "begin_op"]
                /\ UNCHANGED << start, tables, allocated, root, key, ghost, 
                                seen, shy, count, overflow, into, fits, done, 
                                stack, ax, cs, ci, cd, cent, cp, cm, pt, pn, 
                                pc_, hall, ht, hn, hi, hc, hend, hchunk, dent, 
                                dt, dx, nth, op, opk, fresh, tbl, pp, mm, 
                                wait_at, helped, found, busy >>

thread(self) == begin_op(self) \/ load_root(self) \/ start_probe(self)
                   \/ load_meta(self) \/ load_entry(self) \/ examine(self)
                   \/ cas(self) \/ after_cas(self) \/ insert_at(self)
                   \/ insert_meta(self) \/ lost_slot(self)
                   \/ next_table(self) \/ help_out(self) \/ wait_copy(self)
                   \/ linearize(self) \/ linearized(self) \/ scan(self)
                   \/ scan_entry(self) \/ sweep(self) \/ sweep_meta(self)
                   \/ swept(self) \/ finish(self) \/ end_op(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in ProcSet:  \/ alloc_next(self) \/ copy_entry(self)
                               \/ promote(self) \/ help(self)
                               \/ defer_retire(self))
           \/ (\E self \in Threads: thread(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ \A self \in Threads : /\ WF_vars(thread(self))
                                 /\ WF_vars(defer_retire(self))
                                 /\ WF_vars(alloc_next(self))
                                 /\ WF_vars(help(self))
                                 /\ WF_vars(copy_entry(self))
                                 /\ WF_vars(promote(self))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 

InBounds == ~overflow

\* When nothing is running, the length is exact and the tables have the logical content.
Idle == \A t \in Threads : pc[t] = "begin_op" \/ pc[t] = "Done"
RECURSIVE Find(_, _)
Find(x, k) ==
  IF x = 0 THEN 0
  ELSE LET tab == tables[x]
           hits == {q \in 0..Limit(tab.len) :
                      /\ key[Max2(tab.slots[Probe(k, tab.len, q)].e)] = k
                      /\ tab.slots[Probe(k, tab.len, q)].e # 0
                      /\ \A r \in 0..q : tab.meta[Probe(k, tab.len, r)] # EMPTY}
       IN IF hits = {}
            THEN IF \E r \in 0..Limit(tab.len) : tab.meta[Probe(k, tab.len, r)] = EMPTY THEN 0 ELSE Find(tab.next, k)
          ELSE LET q == CHOOSE q \in hits : TRUE
                   slot == tab.slots[Probe(k, tab.len, q)]
               IN IF slot.copied THEN Find(tab.next, k) ELSE slot.e
Settled ==
  Idle => /\ count = Cardinality(Content)
          /\ \A k \in Keys : Find(root, k) = ghost[k]
          /\ \A k \in Keys : ghost[k] # 0 => life[ghost[k]] = "live"
=============================================================================
