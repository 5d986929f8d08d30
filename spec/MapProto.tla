------------------------------ MODULE MapProto ------------------------------
(***************************************************************************)
(* How goroutines share one map: opMu, a reader/writer lock that lets no   *)
(* reader in while a writer waits; Set/Delete/Purge/StoreItem hold it      *)
(* exclusively, Get/LoadItem shared.  Range takes its entries under the    *)
(* shared lock, gives the lock back and then calls the callback, which is  *)
(* free to call the map again.  SetValue of an item which was loaded, and  *)
(* Len, need no lock.                                                      *)
(*                                                                         *)
(* An operation is cut into the steps which others could observe if the    *)
(* lock did not prevent it.  Algorithms of the index: HeapIndex, EmbIndex. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS NK, NV, Procs,
          MaxOps,    \* calls of one process, those of its callbacks included
          Ops,       \* operations used
          Bug

Keys == 1..NK
Vals == 1..NV

VARIABLES cur,   \* key -> item linked in the map, 0 if there is none
          iv,    \* item -> value
          dead,  \* items that have been unlinked
          len,
          rw,    \* [w: writer or 0, r: process -> number of times it holds the lock shared, wait: waiting writers]
          pc, loc,   \* loc: [op, k, a, it: item found, r: result, todo: keys to visit, got: taken, left: callbacks to come]
          back,  \* process -> <<>> or the Range whose callback is running
          cs,    \* monitor of the calls per key
          sets,  \* process -> sets of live keys while its Range takes entries
          may,   \* process -> key -> values it had since the Range began
          done
vars == <<cur, iv, dead, len, rw, pc, loc, back, cs, sets, may, done>>

S == INSTANCE SkipMap WITH m <- <<>>, rk <- <<>>

Idle == [op |-> "", k |-> 0, a |-> 0, it |-> 0, r |-> 0, todo |-> {}, got |-> {}, left |-> 0]
Live(c) == {k \in Keys : c[k] # 0}
ValOf(c, v, k) == IF c[k] = 0 THEN 0 ELSE v[c[k]]

Init ==
  /\ cur = [k \in Keys |-> 0] /\ iv = <<>> /\ dead = {} /\ len = 0
  /\ rw = [w |-> 0, r |-> [p \in Procs |-> 0], wait |-> {}]
  /\ pc = [p \in Procs |-> "idle"] /\ loc = [p \in Procs |-> Idle] /\ back = [p \in Procs |-> <<>>]
  /\ cs = [k \in Keys |-> {<<0, {}>>}]
  /\ sets = [p \in Procs |-> {}] /\ may = [p \in Procs |-> [k \in Keys |-> {}]]
  /\ done = [p \in Procs |-> 0]

-----------------------------------------------------------------------------
(* monitor, as in RMapImpl *)
Keyed(o) == o \in {"set", "del", "get", "isetv"}
Pending(k) == {p \in Procs : pc[p] # "idle" /\ Keyed(loc[p].op) /\ loc[p].k = k}
Res(op, v0) == IF op = "get" THEN v0 ELSE IF op = "set" THEN 1 ELSE S!Bool(v0 # 0)
Take(p, c) == LET o == loc[p].op  r == Res(o, c[1])
              IN {<<v, c[2] \cup {<<p, r>>}>> : v \in S!KeyStep(o, c[1], loc[p].a, r)}
In(p, c) == \E x \in c[2] : x[1] = p
RECURSIVE Closure(_, _)
Closure(C, P) == LET D == C \cup UNION {UNION {Take(p, c) : p \in {q \in P : ~In(q, c)}} : c \in C}
                 IN IF D = C THEN C ELSE Closure(D, P)

\* the process goes on with what called it
Resume(p) ==
  /\ done' = [done EXCEPT ![p] = @ + 1]
  /\ IF back[p] = <<>> THEN /\ pc' = [pc EXCEPT ![p] = "idle"] /\ loc' = [loc EXCEPT ![p] = Idle] /\ back' = back
                       ELSE /\ pc' = [pc EXCEPT ![p] = "callback"] /\ loc' = [loc EXCEPT ![p] = back[p][1]]
                            /\ back' = [back EXCEPT ![p] = <<>>]
Return(p, r) ==
  /\ Resume(p)
  /\ LET k == loc[p].k
     IN cs' = [cs EXCEPT ![k] = {<<c[1], c[2] \ {<<p, r>>}>> :
                                  c \in {d \in Closure(cs[k], Pending(k)) : <<p, r>> \in d[2]}}]

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
\* a change of the content, as seen by the enumerations under way
Observe(c, v) ==
  /\ sets' = [p \in Procs |-> IF loc[p].op = "range" /\ pc[p] # "callback" /\ pc[p] # "idle" THEN sets[p] \cup {Live(c)} ELSE sets[p]]
  /\ may' = [p \in Procs |-> IF loc[p].op = "range" /\ pc[p] # "callback" /\ pc[p] # "idle"
                             THEN [k \in Keys |-> may[p][k] \cup {ValOf(c, v, k)}] ELSE may[p]]
NoChange == UNCHANGED <<cur, iv, dead, sets, may>>
Content == <<cur, iv, dead, sets, may>>

-----------------------------------------------------------------------------
(* the lock *)
Readers == {p \in Procs : rw.r[p] > 0}
CanR(p) == rw.w = 0 /\ rw.wait = {}
RLocked(p) == [rw EXCEPT !.r[p] = @ + 1]
RUnlocked(p) == [rw EXCEPT !.r[p] = @ - 1]
Unlocked == [rw EXCEPT !.w = 0]

NeedsW(op) == op \in {"set", "del"}
First(op) == CASE op = "len" -> "len"
               [] op \in {"set", "del"} -> IF Bug = "find-shared" THEN "rlock" ELSE "announce"
               [] OTHER -> "rlock"

Start(p, op, k, a, b) ==
  /\ loc' = [loc EXCEPT ![p] = [Idle EXCEPT !.op = op, !.k = k, !.a = a]]
  /\ Goto(p, First(op))
  /\ back' = [back EXCEPT ![p] = b]
  /\ IF op = "range" THEN /\ sets' = [sets EXCEPT ![p] = {Live(cur)}]
                          /\ may' = [may EXCEPT ![p] = [k2 \in Keys |-> {ValOf(cur, iv, k2)}]]
                     ELSE UNCHANGED <<sets, may>>
  /\ UNCHANGED <<cur, iv, dead, len, rw, cs, done>>

Call(p) ==
  /\ pc[p] = "idle" /\ done[p] < MaxOps
  /\ \E op \in Ops, k \in Keys : \E a \in (IF op \in {"set", "isetv"} THEN Vals ELSE {0}) :
       (op \in {"range", "len"} => k = 1) /\ Start(p, op, k, a, <<>>)

Announce(p) ==
  /\ pc[p] = "announce"
  /\ rw' = [rw EXCEPT !.wait = @ \cup {p}] /\ Goto(p, "lock")
  /\ UNCHANGED <<cur, iv, dead, len, loc, back, cs, sets, may, done>>
Lock(p) ==
  /\ pc[p] = "lock" /\ rw.w = 0 /\ Readers = {}
  /\ rw' = [rw EXCEPT !.w = p, !.wait = @ \ {p}]
  /\ Goto(p, IF Bug = "find-shared" THEN loc[p].op ELSE "find")
  /\ UNCHANGED <<cur, iv, dead, len, loc, back, cs, sets, may, done>>
RLock(p) ==
  /\ pc[p] = "rlock" /\ CanR(p)
  /\ rw' = RLocked(p)
  /\ IF loc[p].op = "range" THEN Goto(p, "visit") /\ loc' = [loc EXCEPT ![p].todo = Keys]
                            ELSE Goto(p, "find") /\ loc' = loc
  /\ UNCHANGED <<cur, iv, dead, len, back, cs, sets, may, done>>

Find(p) ==
  /\ pc[p] = "find"
  /\ loc' = [loc EXCEPT ![p].it = cur[loc[p].k]]
  /\ IF Bug = "find-shared" /\ NeedsW(loc[p].op) THEN rw' = RUnlocked(p) /\ Goto(p, "announce")
     ELSE IF Bug = "get-late" /\ loc[p].op = "get" THEN rw' = RUnlocked(p) /\ Goto(p, "get")
     ELSE rw' = rw /\ Goto(p, loc[p].op)
  /\ UNCHANGED <<cur, iv, dead, len, back, cs, sets, may, done>>

NewItem == IF Bug \in {"reuse-held", "get-late"} /\ dead # {} THEN Min(dead) ELSE Len(iv) + 1

SetP(p) ==   \* holds the lock: update, or link a new item
  /\ pc[p] = "set"
  /\ LET k == loc[p].k  a == loc[p].a
     IN IF loc[p].it # 0
        THEN /\ iv' = [iv EXCEPT ![loc[p].it] = a] /\ cur' = cur /\ dead' = dead
             /\ Observe(cur, iv')
             /\ rw' = Unlocked /\ Return(p, 1) /\ len' = len
        ELSE /\ iv' = [i \in 1..Max({Len(iv), NewItem}) |-> IF i = NewItem THEN a ELSE iv[i]]
             /\ cur' = [cur EXCEPT ![k] = NewItem] /\ dead' = dead \ {NewItem}
             /\ Observe(cur', iv')
             /\ Goto(p, "inc") /\ UNCHANGED <<rw, loc, back, cs, done, len>>
Inc(p) ==
  /\ pc[p] = "inc" /\ len' = len + 1 /\ rw' = Unlocked /\ Return(p, 1) /\ NoChange

Del(p) ==
  /\ pc[p] = "del"
  /\ IF loc[p].it = 0
     THEN Return(p, 0) /\ rw' = (IF Bug = "leak" THEN rw ELSE Unlocked) /\ NoChange /\ len' = len
     ELSE /\ cur' = [cur EXCEPT ![loc[p].k] = 0] /\ iv' = iv /\ dead' = dead \cup {loc[p].it}
          /\ Observe(cur', iv)
          /\ Goto(p, "dec") /\ UNCHANGED <<rw, loc, back, cs, done, len>>
Dec(p) ==
  /\ pc[p] = "dec" /\ len' = len - 1 /\ rw' = Unlocked /\ Return(p, 1) /\ NoChange

Get(p) ==
  /\ pc[p] = "get"
  /\ Return(p, IF loc[p].it = 0 THEN 0 ELSE iv[loc[p].it])
  /\ rw' = (IF Bug = "get-late" THEN rw ELSE RUnlocked(p))
  /\ NoChange /\ len' = len

Loaded(p) ==   \* LoadItem returns, then SetValue of the item
  /\ pc[p] = "isetv"
  /\ rw' = RUnlocked(p)
  /\ NoChange /\ len' = len
  /\ IF loc[p].it = 0 THEN Return(p, 0)
     ELSE Goto(p, "setvalue") /\ UNCHANGED <<loc, back, cs, done>>
SetValue(p) ==
  /\ pc[p] = "setvalue"
  /\ iv' = [iv EXCEPT ![loc[p].it] = loc[p].a] /\ UNCHANGED <<cur, dead>>
  /\ Observe(cur, iv')
  /\ Return(p, 1) /\ UNCHANGED <<rw, len>>

LenP(p) ==
  /\ pc[p] = "len" /\ Resume(p) /\ NoChange /\ UNCHANGED <<len, rw, cs>>

(* Range *)
Visit(p) ==
  /\ pc[p] = "visit"
  /\ LET k == Min(loc[p].todo)  rest == loc[p].todo \ {k}
         got == IF cur[k] = 0 THEN loc[p].got ELSE loc[p].got \cup {<<k, iv[cur[k]]>>}
     IN /\ loc' = [loc EXCEPT ![p].todo = rest, ![p].got = got, ![p].left = Cardinality(got)]
        /\ IF rest = {} THEN /\ rw' = (IF Bug = "callback-locked" THEN rw ELSE RUnlocked(p)) /\ Goto(p, "callback")
           ELSE IF Bug = "by-steps" THEN rw' = RUnlocked(p) /\ Goto(p, "again")
           ELSE rw' = rw /\ pc' = pc
  /\ UNCHANGED <<cur, iv, dead, len, back, cs, sets, may, done>>
Again(p) ==
  /\ pc[p] = "again" /\ CanR(p) /\ rw' = RLocked(p) /\ Goto(p, "visit")
  /\ UNCHANGED <<cur, iv, dead, len, loc, back, cs, sets, may, done>>

Callback(p) ==
  /\ pc[p] = "callback"
  /\ \/ \* the last callback has returned, or one of them has said false
        /\ Resume(p)
        /\ rw' = (IF Bug = "callback-locked" THEN RUnlocked(p) ELSE rw)
        /\ UNCHANGED <<cur, iv, dead, len, cs, sets, may>>
     \/ \* a callback calls the map
        /\ loc[p].left > 0 /\ done[p] < MaxOps - 1
        /\ \E op \in Ops \ {"range"}, k \in Keys : \E a \in (IF op \in {"set", "isetv"} THEN Vals ELSE {0}) :
             /\ (op = "len" => k = 1)
             /\ Start(p, op, k, a, <<[loc[p] EXCEPT !.left = @ - 1]>>)

Step(p) == \/ Announce(p) \/ Find(p) \/ SetP(p) \/ Inc(p) \/ Del(p) \/ Dec(p) \/ Get(p)
           \/ Loaded(p) \/ SetValue(p) \/ LenP(p) \/ Visit(p) \/ Callback(p)
Wait(p) == Lock(p) \/ RLock(p) \/ Again(p)
Over == (\A p \in Procs : pc[p] = "idle" /\ done[p] >= MaxOps) /\ UNCHANGED vars
Next == (\E p \in Procs : Call(p) \/ Step(p) \/ Wait(p)) \/ Over
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p)) /\ SF_vars(Wait(p))

-----------------------------------------------------------------------------
Linearizable == \A k \in Keys : cs[k] # {}
AtRest == (\A p \in Procs : pc[p] = "idle") =>
            /\ len = Cardinality(Live(cur))                                     \* C05
            /\ \A k \in Keys : <<ValOf(cur, iv, k), {}>> \in cs[k]              \* C10
            /\ rw.w = 0 /\ Readers = {} /\ rw.wait = {}
\* C11: the keys an enumeration delivers were the live ones at one moment, each value was one of its key
RangeOK == \A p \in Procs : (pc[p] = "callback" /\ loc[p].op = "range") =>
             LET G == loc[p].got
             IN /\ {x[1] : x \in G} \in sets[p]
                /\ Cardinality({x[1] : x \in G}) = Cardinality(G)
                /\ \A x \in G : x[2] \in may[p][x[1]]
Exclusive == rw.w # 0 => Readers = {}
\* C12 (with deadlock checking)
Ends == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
=============================================================================
