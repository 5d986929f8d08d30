------------------------------ MODULE BulkMap ------------------------------
(***************************************************************************)
(* SkipMap at scale.  The keys of one map are partitioned into blocks; all *)
(* keys of a block are always treated alike, so one number per block is    *)
(* the state of the map: m[b] is the value of every key of block b, sz[b]  *)
(* is their number.  A bulk call makes the same call on every key of a     *)
(* block (in any order, from one goroutine or several); its result is the  *)
(* collection of the results <<r, n>>: n calls had result r.               *)
(*                                                                         *)
(* Since calls on different keys commute in SkipMap, a bulk call on block  *)
(* b is SkipMap!KeyStep for each of its keys, whatever happens to other    *)
(* blocks at the same time.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES m,   \* m[b]: value of all keys of the block
          sz   \* sz[b]: number of keys of the block, never changes

S == INSTANCE SkipMap WITH m <- <<m>>, rk <- <<>>

Live == {b \in DOMAIN m : m[b] # 0}

RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumOver(f, D \ {x})

Count == SumOver(sz, Live)

(* res: sequence of <<result, number of keys>> *)
Call(op, b, a, res) ==
  /\ b \in DOMAIN m
  /\ SumOver([j \in DOMAIN res |-> res[j][2]], DOMAIN res) = sz[b]
  /\ res # <<>>
  /\ \E v \in S!KeyStep(op, m[b], a, res[1][1]) :
       /\ \A j \in DOMAIN res : v \in S!KeyStep(op, m[b], a, res[j][1])
       /\ m' = [m EXCEPT ![b] = v]
  /\ UNCHANGED sz

(* A bulk call of several calls for each key, one key after the other.  calls is a          *)
(* sequence of <<op, a, res>>.  runs describes what Len said after each key: an arithmetic    *)
(* sequence <<first, step, number of keys>> if the map is well; <<>> if Len was not called.   *)
StepAll(op, v0, a, res, n) ==
  IF res = <<>> \/ SumOver([j \in DOMAIN res |-> res[j][2]], DOMAIN res) # n THEN {}
  ELSE {v \in S!KeyStep(op, v0, a, res[1][1]) : \A j \in DOMAIN res : v \in S!KeyStep(op, v0, a, res[j][1])}
RECURSIVE Fold(_, _, _, _)
Fold(calls, k, v, n) ==     \* the values the keys may have after calls k, k+1, ...
  IF k > Len(calls) THEN {v}
  ELSE UNION {Fold(calls, k+1, w, n) : w \in StepAll(calls[k][1], v, calls[k][2], calls[k][3], n)}
Each(b, calls, runs) ==
  /\ b \in DOMAIN m
  /\ \E v \in Fold(calls, 1, m[b], sz[b]) :
       /\ m' = [m EXCEPT ![b] = v]
       /\ LET d == S!Bool(v # 0) - S!Bool(m[b] # 0) IN
          \/ runs = <<>>
          \/ /\ Len(runs) = 1
             /\ runs[1][1] = Count + d
             /\ runs[1][3] = sz[b]
             /\ (sz[b] > 1 => runs[1][2] = d)
  /\ UNCHANGED sz

(* The calls of Each, repeated for each key: the first time with results as in first, then     *)
(* rounds-1 times with results as in again.                                                     *)
Churn(b, rounds, first, again) ==
  /\ b \in DOMAIN m
  /\ \E v \in Fold(first, 1, m[b], sz[b]) :
       /\ rounds > 1 => v \in Fold(again, 1, v, sz[b] * (rounds-1))
       /\ m' = [m EXCEPT ![b] = v]
  /\ UNCHANGED sz

(* n new maps of 3, 4, .. keys with value v, and in each of them the same calls on its first,   *)
(* middle and last key and on a missing one (cells 1..4).  calls: <<op, cell, a, res>>, lens:   *)
(* what Len said at the end, as difference to the number of keys that were set.                 *)
RECURSIVE Cells(_, _, _, _)
Cells(calls, k, c, n) ==
  IF k > Len(calls) THEN {c}
  ELSE UNION {Cells(calls, k+1, [c EXCEPT ![calls[k][2]] = w], n) :
               w \in StepAll(calls[k][1], c[calls[k][2]], calls[k][3], calls[k][4], n)}
Stairs(v, n, calls, lens) ==
  /\ \E c \in Cells(calls, 1, <<v, v, v, 0>>, n) :
       lens = <<<<S!Bool(c[1] # 0) + S!Bool(c[2] # 0) + S!Bool(c[3] # 0) + S!Bool(c[4] # 0) - 3, n>>>>
  /\ UNCHANGED <<m, sz>>

(* Some keys of block b are written again and again by several goroutines, w is the set of  *)
(* values written (0 if they are deleted, too); res are the values other goroutines read at  *)
(* the same time.  In the end all keys of the block are set to a, with results fin.            *)
Hot(b, w, res, a, fin) ==
  /\ b \in DOMAIN m
  /\ \A j \in DOMAIN res : res[j][1] \in w \cup {m[b]}
  /\ StepAll("set", m[b], a, fin, sz[b]) = {a}
  /\ m' = [m EXCEPT ![b] = a]
  /\ UNCHANGED sz

Len_(n) == n = Count /\ UNCHANGED <<m, sz>>

(* An enumeration, summed up: items is a set of <<block, value, keys>>; keys which     *)
(* were met again are counted in dups; ord is 1 if the hashes were in ascending order. *)
Shape(items, ord, dups) ==
  /\ ord = 1 /\ dups = 0
  /\ \A x \in items : x[1] \in DOMAIN m /\ x[2] > 0
Range(items, ord, dups) ==
  /\ Shape(items, ord, dups)
  /\ items = {<<b, m[b], sz[b]>> : b \in Live}
  /\ UNCHANGED <<m, sz>>

(* An enumeration while bulk calls on the blocks of t are running: other blocks are   *)
(* complete and unchanged; w is the set of values that are being written or were there *)
RangeDuring(t, w, items, ord, dups) ==
  /\ Shape(items, ord, dups)
  /\ {x \in items : x[1] \notin t} = {<<b, m[b], sz[b]>> : b \in Live \ t}
  /\ \A x \in items : x[1] \in t => x[2] \in w \cup {m[x[1]]} /\ x[3] <= sz[x[1]]
  /\ UNCHANGED <<m, sz>>
=============================================================================
