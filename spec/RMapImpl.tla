------------------------------ MODULE RMapImpl ------------------------------
(***************************************************************************)
(* The read-mostly map (rmap/rmap.go): an immutable table "read" from keys *)
(* to cells which is replaced as a whole, and a dirty map for the keys     *)
(* which are not in it.  Set and Delete run under the lock; Get first      *)
(* looks into read without it.  After enough misses dirty is promoted: a   *)
(* new table gets the cells which are not deleted and those of dirty.      *)
(*                                                                         *)
(* One action is one step which other goroutines can observe: loading the  *)
(* table, loading or replacing a cell, publishing a table, changing len.   *)
(* What only the holder of the lock sees is part of the same step.         *)
(*                                                                         *)
(* The monitor cs holds for every key the configurations that are possible *)
(* in some linearization, as in TraceLin.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS NK,       \* keys 1..NK
          NV,       \* values 1..NV
          Procs,
          MaxOps,   \* calls of one process
          Bug

Keys == 1..NK
Vals == 1..NV
None == <<>>

VARIABLES read,    \* [m: key -> cell, am: amended]
          cell,    \* cell -> value, 0: deleted.  A cell is a number.
          dirty,   \* key -> value
          misses, len,
          lock,    \* holder or 0
          pc, loc, \* loc: [op, k, a, rd (table loaded), r (result), todo]
          cs,      \* monitor: key -> set of <<value, calls that have taken effect>>
          done,    \* process -> number of calls
          hist     \* for generating behaviours (one process)
vars == <<read, cell, dirty, misses, len, lock, pc, loc, cs, done, hist>>

S == INSTANCE SkipMap WITH m <- <<>>, rk <- <<>>

Emp == [x \in {} |-> 0]
Idle == [op |-> "", k |-> 0, a |-> 0, rd |-> [m |-> Emp, am |-> FALSE], r |-> 0]

Init ==
  /\ read = [m |-> Emp, am |-> FALSE]
  /\ cell = Emp
  /\ dirty = Emp
  /\ misses = 0 /\ len = 0 /\ lock = 0
  /\ pc = [p \in Procs |-> "idle"]
  /\ loc = [p \in Procs |-> Idle]
  /\ cs = [k \in Keys |-> {<<0, {}>>}]
  /\ done = [p \in Procs |-> 0]
  /\ hist = <<>>

-----------------------------------------------------------------------------
(* monitor; a call is <<p, op, a>>, its result is known when it returns *)
Pending(k) == {p \in Procs : pc[p] # "idle" /\ loc[p].k = k}

\* all values a call may have returned: the result of a call is guessed with its effect
Res(op, v0) == IF op = "get" THEN v0 ELSE IF op = "set" THEN 1 ELSE S!Bool(v0 # 0)
Take(p, c) ==   \* call of p takes effect in configuration c
  LET o == loc[p].op  r == Res(o, c[1])
  IN {<<v, c[2] \cup {<<p, r>>}>> : v \in S!KeyStep(o, c[1], loc[p].a, r)}
In(p, c) == \E x \in c[2] : x[1] = p
RECURSIVE Closure(_, _)
Closure(C, P) == LET D == C \cup UNION {UNION {Take(p, c) : p \in {q \in P : ~In(q, c)}} : c \in C}
                 IN IF D = C THEN C ELSE Closure(D, P)

Return(p, r) ==   \* together with the step which ends the call
  LET k == loc[p].k
  IN /\ cs' = [cs EXCEPT ![k] = {<<c[1], c[2] \ {<<p, r>>}>> :
                                   c \in {d \in Closure(cs[k], Pending(k)) : <<p, r>> \in d[2]}}]
     /\ pc' = [pc EXCEPT ![p] = "idle"]
     /\ loc' = [loc EXCEPT ![p] = Idle]
     /\ done' = [done EXCEPT ![p] = @ + 1]
     /\ hist' = Append(hist, <<loc[p].op, loc[p].k>>)

-----------------------------------------------------------------------------
Cell(rd, k) == IF k \in DOMAIN rd.m THEN cell[rd.m[k]] ELSE 0
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Fresh(n) == {Max({0} \cup DOMAIN cell) + i : i \in 1..n}

\* storeReadFromDirty; rd: current table, d: dirty map.  New table, cells, dirty map.
Promote(rd, d, am) ==
  LET keep == {k \in DOMAIN rd.m : cell[rd.m[k]] # 0}
      base == Max({0} \cup DOMAIN cell)
      dk   == DOMAIN d
      num(k) == base + Cardinality({j \in dk : j <= k})
      ndom == (IF Bug = "keeps-dirty-only" THEN {} ELSE keep) \cup dk
  IN IF ndom = {} THEN [rd |-> rd, cell |-> cell, d |-> d]
     ELSE [rd |-> [m |-> [k \in ndom |-> IF k \in dk /\ (Bug # "read-wins" \/ k \notin DOMAIN rd.m) THEN num(k) ELSE rd.m[k]],
                   am |-> IF DOMAIN rd.m = {} THEN TRUE ELSE am],
           cell |-> [c \in DOMAIN cell \cup {num(k) : k \in dk} |->
                       IF c \in DOMAIN cell THEN cell[c] ELSE d[CHOOSE k \in dk : num(k) = c]],
           d |-> IF Bug = "dirty-kept" THEN d ELSE Emp]

\* missLocked
Restore(n, rd, d) == ~(n <= Cardinality(DOMAIN rd.m) /\ n < Cardinality(DOMAIN d))
Miss(d) ==
  LET n == misses + 1
  IN IF Restore(n, read, d)
     THEN LET x == Promote(read, d, FALSE)
          IN read' = x.rd /\ cell' = x.cell /\ dirty' = x.d /\ misses' = 0
     ELSE misses' = n /\ dirty' = d /\ UNCHANGED <<read, cell>>

-----------------------------------------------------------------------------
Call(p) ==
  /\ pc[p] = "idle" /\ done[p] < MaxOps
  /\ \E op \in {"get", "set", "del"}, k \in Keys : \E a \in (IF op = "set" THEN Vals ELSE {0}) :
       /\ loc' = [loc EXCEPT ![p] = [Idle EXCEPT !.op = op, !.k = k, !.a = a]]
       /\ Goto(p, CASE op = "get" -> "load" [] op = "del" /\ Bug = "delete-unlocked" -> "udel" [] OTHER -> "lock")
  /\ UNCHANGED <<read, cell, dirty, misses, len, lock, cs, done, hist>>

(* Get2 *)
Load(p) ==
  /\ pc[p] = "load"
  /\ loc' = [loc EXCEPT ![p].rd = read]
  /\ Goto(p, "cell")
  /\ UNCHANGED <<read, cell, dirty, misses, len, lock, cs, done, hist>>

LoadCell(p) ==
  /\ pc[p] = "cell"
  /\ LET v == Cell(loc[p].rd, loc[p].k)
     IN IF v # 0 \/ ~loc[p].rd.am \/ (Bug = "no-dirty-if-cell" /\ loc[p].k \in DOMAIN loc[p].rd.m)
        THEN Return(p, v) /\ UNCHANGED <<read, cell, dirty, misses, len, lock>>
        ELSE Goto(p, "lock") /\ UNCHANGED <<read, cell, dirty, misses, len, lock, loc, cs, done, hist>>

Lock(p) ==
  /\ pc[p] = "lock" /\ lock = 0
  /\ lock' = p
  /\ Goto(p, loc[p].op)
  /\ UNCHANGED <<read, cell, dirty, misses, len, loc, cs, done, hist>>

\* the end of a call unlocks; what follows the last visible change is in its step
GetLocked(p) ==
  /\ pc[p] = "get"
  /\ lock' = 0
  /\ LET k == loc[p].k
         rd == IF Bug = "stale-table" THEN loc[p].rd ELSE read
         v == Cell(rd, k)
     IN IF v # 0 THEN Return(p, v) /\ UNCHANGED <<read, cell, dirty, misses, len>>
        ELSE IF rd.am
             THEN /\ Return(p, IF k \in DOMAIN dirty THEN dirty[k] ELSE 0)
                  /\ Miss(dirty) /\ len' = len
             ELSE Return(p, 0) /\ UNCHANGED <<read, cell, dirty, misses, len>>

SetLocked(p) ==
  /\ pc[p] = "set"
  /\ LET k == loc[p].k  a == loc[p].a
     IN IF Cell(read, k) # 0
        THEN /\ cell' = [cell EXCEPT ![read.m[k]] = a]
             /\ lock' = 0 /\ Return(p, 1) /\ UNCHANGED <<read, dirty, misses, len>>
        ELSE IF k \in DOMAIN dirty
             THEN /\ dirty' = [dirty EXCEPT ![k] = a]
                  /\ lock' = 0 /\ Return(p, 1) /\ UNCHANGED <<read, cell, misses, len>>
             ELSE /\ dirty' = [x \in DOMAIN dirty \cup {k} |-> IF x = k THEN a ELSE dirty[x]]
                  /\ len' = len + 1
                  /\ Goto(p, "publish")
                  /\ UNCHANGED <<read, cell, misses, lock, loc, cs, done, hist>>

Publish(p) ==   \* Set of a new key: the table says that there is a dirty map
  /\ pc[p] = "publish"
  /\ lock' = 0
  /\ Return(p, 1)
  /\ IF DOMAIN read.m = {}
     THEN LET x == Promote(read, dirty, TRUE)
          IN read' = x.rd /\ cell' = x.cell /\ dirty' = x.d
     ELSE /\ read' = [read EXCEPT !.am = IF Bug = "not-amended" THEN @ ELSE TRUE]
          /\ UNCHANGED <<cell, dirty>>
  /\ UNCHANGED <<misses, len>>

DelLocked(p) ==
  /\ pc[p] = "del"
  /\ LET k == loc[p].k
     IN IF Cell(read, k) # 0
        THEN /\ cell' = [cell EXCEPT ![read.m[k]] = 0]
             /\ Goto(p, "dlen")
             /\ UNCHANGED <<read, dirty, misses, len, lock, loc, cs, done, hist>>
        ELSE /\ lock' = 0
             /\ IF read.am
                THEN /\ Miss(Restrict(dirty, DOMAIN dirty \ {k}))
                     /\ len' = IF k \in DOMAIN dirty THEN len - 1 ELSE len
                     /\ Return(p, S!Bool(k \in DOMAIN dirty))
                ELSE Return(p, 0) /\ UNCHANGED <<read, cell, dirty, misses, len>>

DelLen(p) ==
  /\ pc[p] = "dlen"
  /\ len' = len - 1
  /\ lock' = 0
  /\ Return(p, 1)
  /\ UNCHANGED <<read, cell, dirty, misses>>

\* Bug = "delete-unlocked": the cell is tested before the lock is taken
UDel(p) ==
  /\ pc[p] = "udel"
  /\ IF Cell(read, loc[p].k) # 0 THEN loc' = [loc EXCEPT ![p].rd = read] /\ Goto(p, "udel2")
                                 ELSE loc' = loc /\ Goto(p, "lock")
  /\ UNCHANGED <<read, cell, dirty, misses, len, lock, cs, done, hist>>
UDel2(p) ==
  /\ pc[p] = "udel2"
  /\ cell' = [cell EXCEPT ![loc[p].rd.m[loc[p].k]] = 0]
  /\ len' = len - 1
  /\ Return(p, 1)
  /\ UNCHANGED <<read, dirty, misses, lock>>

Next == \E p \in Procs : \/ Call(p) \/ Load(p) \/ LoadCell(p) \/ Lock(p) \/ GetLocked(p) \/ SetLocked(p)
                         \/ Publish(p) \/ DelLocked(p) \/ DelLen(p) \/ UDel(p) \/ UDel2(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Load(p) \/ LoadCell(p) \/ GetLocked(p) \/ SetLocked(p) \/ Publish(p)
                                                         \/ DelLocked(p) \/ DelLen(p)) /\ SF_vars(Lock(p))

-----------------------------------------------------------------------------
\* every history has a linearization for each key
Linearizable == \A k \in Keys : cs[k] # {}

\* what is in the map, and Len, when nobody is at work
Content(k) == IF Cell(read, k) # 0 THEN Cell(read, k) ELSE IF k \in DOMAIN dirty THEN dirty[k] ELSE 0
Quiet == \A p \in Procs : pc[p] = "idle"
AtRest == Quiet => /\ len = Cardinality({k \in Keys : Content(k) # 0})
                   /\ \A k \in Keys : <<Content(k), {}>> \in cs[k]

\* a key is live in one of the two places only, and a reader of the table learns of the other
OnePlace == \A k \in DOMAIN dirty : Cell(read, k) = 0
Announced == (lock = 0 /\ DOMAIN dirty # {}) => read.am

\* every call comes to an end
Ends == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")

\* cells in the order of their numbers, those that can be seen
Seen == UNION {{t.m[k] : k \in DOMAIN t.m} : t \in {read} \cup {loc[p].rd : p \in Procs}}
Num(c) == Cardinality({x \in Seen : x <= c})
Norm(t) == [k \in DOMAIN t.m |-> Num(t.m[k])]
View == <<Norm(read), read.am, [i \in 1..Cardinality(Seen) |-> cell[CHOOSE c \in Seen : Num(c) = i]],
          dirty, misses, len, lock, pc, [p \in Procs |-> <<loc[p].op, loc[p].k, loc[p].a, loc[p].rd.am, Norm(loc[p].rd)>>],
          cs, done>>
\* one process: without the number of calls
View1 == <<Norm(read), read.am, [i \in 1..Cardinality(Seen) |-> cell[CHOOSE c \in Seen : Num(c) = i]],
           dirty, misses, len, lock, pc, [p \in Procs |-> <<loc[p].op, loc[p].k, loc[p].a>>]>>
EmitC == (\A p \in Procs : pc[p] # "idle" /\ pc'[p] = "idle") => PrintT("BEH " \o ToJson([ops |-> hist']))
=============================================================================
