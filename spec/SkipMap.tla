------------------------------ MODULE SkipMap ------------------------------
(***************************************************************************)
(* What a user of skiplistmap observes: a family of independent maps.      *)
(* Keys and values are small numbers, 0 stands for "absent".  rk[k] is the *)
(* rank of the bit-reversed hash of key k; equal ranks are equal hashes.   *)
(*                                                                         *)
(* Every action is one public call together with its result.  The module   *)
(* is used in three ways: explored by TLC on its own (SkipMapMC), as the   *)
(* refinement target of the implementation-shaped specifications, and as   *)
(* the oracle for traces recorded from the real code (TraceSeq).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES m,   \* m[i][k]: value of key k in map i, 0 if absent
          rk   \* rk[k]: rank of the reversed hash, never changes

Live(i)  == {k \in DOMAIN m[i] : m[i][k] # 0}
Count(i) == Cardinality(Live(i))
Bool(b)  == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(***************************************************************************)
(* The meaning of a call for its key: v0 is the value of the key before,   *)
(* a the argument, r the result.  The possible values afterwards; the set  *)
(* is empty if the call cannot have this result.                           *)
(***************************************************************************)
KeyStep(op, v0, a, r) ==
  CASE op = "set"   -> IF r = 1 /\ a # 0 THEN {a} ELSE {}
    \* through an item that was just loaded: nothing happens if there is no item
    [] op = "isetv" -> IF r = Bool(v0 # 0) THEN {IF v0 # 0 THEN a ELSE 0} ELSE {}
    [] op = "del"   -> IF r = Bool(v0 # 0) THEN {0} ELSE {}
    [] op = "get"   -> IF r = v0 THEN {v0} ELSE {}
    [] op = "has"   -> IF r = Bool(v0 # 0) THEN {v0} ELSE {}

Call(op, i, k, a, r) ==
  \E v \in KeyStep(op, m[i][k], a, r) : m' = [m EXCEPT ![i][k] = v]

Set(i, k, v, ok)     == Call("set", i, k, v, ok)
ItemSet(i, k, v, ok) == Call("isetv", i, k, v, ok)
Remove(i, k, ok)     == Call("del", i, k, 0, ok)
(* all ways of reading have the same meaning *)
Get(i, k, v)         == Call("get", i, k, 0, v)
Has(i, k, ok)        == Call("has", i, k, 0, ok)
(* search by hash only: any live key of this hash, kn = 0 if there is none *)
Search(i, k, kn, v)  ==
  /\ IF \E x \in Live(i) : rk[x] = rk[k]
     THEN kn \in Live(i) /\ rk[kn] = rk[k] /\ v = m[i][kn]
     ELSE kn = 0
  /\ UNCHANGED m
Len_(i, n)           == n = Count(i) /\ UNCHANGED m

(***************************************************************************)
(* Enumeration.  res is <<k1,v1,k2,v2,...>>; stop is the number of calls   *)
(* after which the callback says false, 0 if never.  Keys of equal hash    *)
(* may come in any order.                                                  *)
(***************************************************************************)
KeyAt(res, j) == res[2*j-1]
ValAt(res, j) == res[2*j]
Calls(res)    == Len(res) \div 2

Enumerates(i, stop, res) ==
  LET n  == Calls(res)
      L  == Live(i)
      ks == {KeyAt(res, j) : j \in 1..n}
  IN /\ ks \subseteq L                                     \* only live keys
     /\ Cardinality(ks) = n                                \* each once
     /\ \A j \in 1..n : ValAt(res, j) = m[i][KeyAt(res, j)]  \* current value
     /\ \A j \in 1..n-1 : rk[KeyAt(res, j)] <= rk[KeyAt(res, j+1)]
     /\ IF stop > 0 /\ Cardinality(L) > stop
        THEN /\ n = stop                                   \* no further call
             /\ \A k \in L \ ks : rk[k] >= rk[KeyAt(res, n)] \* a prefix
        ELSE n = Cardinality(L)                            \* complete

(* what holds of an enumeration whatever else is going on *)
EnumShape(i, res) ==
  LET n == Calls(res)
  IN /\ \A j \in 1..n : KeyAt(res, j) \in DOMAIN m[i] /\ ValAt(res, j) > 0
     /\ Cardinality({KeyAt(res, j) : j \in 1..n}) = n
     /\ \A j \in 1..n-1 : rk[KeyAt(res, j)] <= rk[KeyAt(res, j+1)]

Range(i, stop, res) == Enumerates(i, stop, res) /\ UNCHANGED m

ConcRange(i, res)   == EnumShape(i, res) /\ UNCHANGED m

(* The printed list of entries: in order and with every live key.  Entries *)
(* which are deleted and not yet reused are printed, too.                   *)
Dump(i, res) ==
  /\ \A j \in 1..Len(res) : res[j] \in DOMAIN m[i]
  /\ Live(i) \subseteq {res[j] : j \in 1..Len(res)}
  /\ \A j \in 1..Len(res)-1 : rk[res[j]] <= rk[res[j+1]]
  /\ UNCHANGED m

(* things that must not change anything *)
Nop == UNCHANGED m
=============================================================================
