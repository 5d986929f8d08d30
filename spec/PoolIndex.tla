----------------------------- MODULE PoolIndex -----------------------------
(***************************************************************************)
(* The storage of a map with UsePool (pool2.go) at the level of addresses. *)
(*                                                                         *)
(* Items of Set are slots of arrays, one array per pool; the pool of an    *)
(* item is chosen by the first digit of its reversed hash.  Items, items   *)
(* of StoreItem (somewhere in the heap) and dummies of buckets are in one  *)
(* list, whose links are distances of addresses.  A full array is copied   *)
(* to a larger one: the links between items of the array stay right, those *)
(* across its border are moved on both sides (RepaireSliceAfterCopy), and  *)
(* nothing may lead to the old array afterwards.                           *)
(*                                                                         *)
(* The place of an item in the list is found by walking; the search of the *)
(* index is specified in HeapIndex.  Every public call is one action.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS W, NB,     \* width of the reversed hash, of a digit
          Revs,      \* of the keys
          NP,        \* number of pools
          Cap0,      \* capacity of the first array
          Caps,      \* capacities of the following ones
          MaxOps, NV,
          Apis,      \* subset of {"set", "store"}
          Bug

MAX  == 2^W - 1
DIG  == 2^NB
Keys == 1..Len(Revs)
Dummies == 1..DIG+1                     \* their addresses; the last one ends the list
DRev(a) == IF a = DIG+1 THEN MAX ELSE (a-1) * 2^(W-NB)
PoolOf(k) == (Revs[k] \div 2^(W-NB)) % NP

VARIABLES
  mem,    \* address -> [k, v, r, u, nx, pv]; k = 0: dummy; u: item of the user;
          \* nx, pv: distance, 0: not linked
  arr,    \* pool -> [base, len, cap, gen]
  m, len, hist
vars == <<mem, arr, m, len, hist>>

S == INSTANCE SkipMap WITH m <- <<m>>, rk <- Revs

-----------------------------------------------------------------------------
\* memory is allocated in blocks; given up memory may be allocated again
Blocks   == {100 + 10 * i : i \in 0..NP + MaxOps}
NewBlock == Min({b \in Blocks : b \notin DOMAIN mem /\ \A p \in 0..NP-1 : arr[p].base # b})

Nx(f, a) == a + f[a].nx
Pv(f, a) == a + f[a].pv

\* addresses from a to the last dummy; stops at places where nothing was ever allocated
RECURSIVE FwdFrom(_, _, _)
FwdFrom(f, a, n) == IF a = DIG+1 \/ n = 0 \/ Nx(f, a) \notin DOMAIN f THEN <<a>>
                    ELSE <<a>> \o FwdFrom(f, Nx(f, a), n-1)
Forward(f) == FwdFrom(f, 1, Cardinality(DOMAIN f))
RECURSIVE BwdFrom(_, _, _)
BwdFrom(f, a, n) == IF a = 1 \/ n = 0 \/ Pv(f, a) \notin DOMAIN f THEN <<a>>
                    ELSE BwdFrom(f, Pv(f, a), n-1) \o <<a>>
Backward(f) == BwdFrom(f, DIG+1, Cardinality(DOMAIN f))

\* live item of key k, 0 if there is none
Lookup(k) == LET l == Forward(mem)
                 X == {i \in 1..Len(l) : mem[l[i]].k = k /\ mem[l[i]].v # 0}
             IN IF X = {} THEN 0 ELSE l[Min(X)]

\* the node before which an item of hash r goes: items of one hash are in order of insertion
Before(f, r) == LET l == Forward(f)
                IN l[Min({i \in 1..Len(l) : f[l[i]].r > r \/ l[i] = DIG+1})]

Link(f, a, n) ==      \* a before n
  LET p == Pv(f, n)
  IN [f EXCEPT ![a].nx = n - a, ![a].pv = p - a, ![p].nx = a - p, ![n].pv = a - n]

(* the array [ob, ob+n) was copied to nb: links across the border *)
Repair(f, ob, n, nb) ==
  LET mv == nb - ob
      In(x) == x >= ob /\ x < ob + n
      RECURSIVE R(_, _)
      R(g, i) ==
        IF i = n THEN g
        ELSE LET c == ob + i  d == nb + i
                 p == Pv(f, c)  q == Nx(f, c)
                 op == ~In(p) /\ f[c].pv # 0
                 oq == ~In(q) /\ f[c].nx # 0
                 g1 == IF op /\ Bug # "next-of-outer" THEN [g EXCEPT ![p].nx = @ + mv] ELSE g
                 g2 == IF op /\ Bug # "prev-of-copy" THEN [g1 EXCEPT ![d].pv = @ - mv] ELSE g1
                 g3 == IF oq /\ Bug # "prev-of-outer" THEN [g2 EXCEPT ![q].pv = @ + mv] ELSE g2
                 g4 == IF oq /\ Bug # "next-of-copy" THEN [g3 EXCEPT ![d].nx = @ - mv] ELSE g3
             IN IF Bug = "first-border-only" /\ (op \/ oq) THEN g4 ELSE R(g4, i+1)
  IN R(f, 0)

(* _expand; the array which was given up is no memory of ours any more *)
Grow(f, p) ==
  LET a  == arr[p]
      n  == IF Bug = "last-not-copied" THEN a.len - 1 ELSE a.len
      nb == NewBlock
      cp == [x \in DOMAIN f \cup (nb..nb + n - 1) |-> IF x \in nb..nb + n - 1 THEN f[a.base + x - nb] ELSE f[x]]
      g  == Repair(cp, a.base, n, nb)
  IN [mem |-> [x \in DOMAIN g \ (a.base..a.base + a.len - 1) |-> g[x]],
      arr |-> [base |-> nb, len |-> n, cap |-> Caps[a.gen], gen |-> a.gen + 1]]

Init ==
  /\ arr = [p \in 0..NP-1 |-> [base |-> 100 + 10 * p, len |-> 0, cap |-> Cap0, gen |-> 1]]
  /\ mem = [a \in Dummies |-> [k |-> 0, v |-> 0, r |-> DRev(a), u |-> FALSE,
                                nx |-> IF a = DIG+1 THEN 0 ELSE 1, pv |-> IF a = 1 THEN 0 ELSE -1]]
  /\ m = [k \in Keys |-> 0]
  /\ len = 0
  /\ hist = <<>>

New(k, v, u) == [k |-> k, v |-> v, r |-> Revs[k], u |-> u, nx |-> 0, pv |-> 0]
Put(f, a, c) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN c ELSE f[x]]

Set(k) ==
  \E v \in {(m[k] % NV) + 1} : \E a \in {Lookup(k)} : \E p \in {PoolOf(k)} :
  /\ hist' = Append(hist, <<"set", k>>)
  /\ m' = [m EXCEPT ![k] = v]
  /\ IF a # 0
     THEN /\ mem' = [mem EXCEPT ![a].v = v]
          /\ UNCHANGED <<arr, len>>
     ELSE LET full == arr[p].len = arr[p].cap
              old  == Before(mem, Revs[k])
          IN /\ full => arr[p].gen <= Len(Caps)
             /\ \E g \in {IF full THEN Grow(mem, p) ELSE [mem |-> mem, arr |-> arr[p]]} :
                \E slot \in {IF full /\ Bug = "old-array" THEN arr[p].base + arr[p].len - 1 ELSE g.arr.base + g.arr.len} :
                \E f \in {Put(g.mem, slot, New(k, v, FALSE))} :
                /\ mem' = Link(f, slot, IF Bug = "place-before-growth" THEN old ELSE Before(g.mem, Revs[k]))
                /\ arr' = [arr EXCEPT ![p] = [g.arr EXCEPT !.len = @ + 1]]
             /\ len' = len + 1

\* StoreItem with a new item of the user
Store(k) ==
  \E v \in {(m[k] % NV) + 1} : \E a \in {Lookup(k)} :
  /\ hist' = Append(hist, <<"store", k>>)
  /\ m' = [m EXCEPT ![k] = v]
  /\ arr' = arr
  /\ IF a # 0
     THEN /\ mem' = [mem EXCEPT ![a].v = v]
          /\ UNCHANGED len
     ELSE /\ mem' = Link(Put(mem, NewBlock, New(k, v, TRUE)), NewBlock, Before(mem, Revs[k]))
          /\ len' = len + 1

Del(k) ==
  \E a \in {Lookup(k)} :
  /\ a # 0
  /\ hist' = Append(hist, <<"del", k>>)
  /\ m' = [m EXCEPT ![k] = 0]
  /\ mem' = [mem EXCEPT ![a].v = 0]
  /\ len' = len - 1
  /\ UNCHANGED arr

Next == /\ Len(hist) < MaxOps
        /\ \E k \in Keys : \/ "set" \in Apis /\ Set(k)
                           \/ "store" \in Apis /\ Store(k)
                           \/ Del(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every item is found, with its value
Found == \A k \in Keys : LET a == Lookup(k) IN IF m[k] = 0 THEN a = 0 ELSE a # 0 /\ mem[a].v = m[k]
\* forward and backward: the same nodes, all the dummies, in order
Mirror  == Forward(mem) = Backward(mem)
Ordered == LET l == Forward(mem) IN
           /\ \A i \in 1..Len(l)-1 : mem[l[i]].r <= mem[l[i+1]].r
           /\ Dummies \subseteq {l[i] : i \in 1..Len(l)}
Flat == LET X == SelectSeq(Forward(mem), LAMBDA a : mem[a].k # 0 /\ mem[a].v # 0)
        IN [j \in 1..2*Len(X) |-> IF j % 2 = 1 THEN mem[X[(j+1) \div 2]].k ELSE mem[X[j \div 2]].v]
Enumerable == S!Enumerates(1, 0, Flat)
LenExact   == len = S!Count(1)
\* what is linked is in the memory in use: never in an array which was given up
InArray(p, a) == a >= arr[p].base /\ a < arr[p].base + arr[p].len
InUse == LET l == Forward(mem) IN \A i \in 1..Len(l) :
           mem[l[i]].k = 0 \/ mem[l[i]].u \/ InArray(PoolOf(mem[l[i]].k), l[i])
\* all that is allocated is linked
Slots == LET l == Forward(mem) IN
         DOMAIN mem = {l[i] : i \in 1..Len(l)}

View == <<mem, arr, m, len>>

(* one behaviour for every transition; gen: how often the arrays were replaced *)
EmitC == PrintT("BEH " \o ToJson([ops |-> hist', gen |-> [p \in 1..NP |-> arr'[p-1].gen]]))
=============================================================================
