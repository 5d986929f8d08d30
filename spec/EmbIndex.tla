------------------------------ MODULE EmbIndex ------------------------------
(***************************************************************************)
(* The index of a map with UseEmbeddedPool: every bucket has an array of   *)
(* items in the order of the reversed hash, found by binary search, and    *)
(* all items are linked in one list in the same order.  A deleted item     *)
(* keeps its place until an insert of a fitting hash reuses it, or Purge   *)
(* gives back the deleted items at the end of the array.  Arrays are       *)
(* copied to insert in the middle and to grow, and cut in two by a split.  *)
(*                                                                         *)
(* Every public call is one action (the code holds opMu exclusively).      *)
(* Algorithms are those of map_embedded.go: bsearchBybucket, getWithFn     *)
(* with state4get, appendLast, insertToPool, expand, bsearchFromFreeList,  *)
(* makeBucket2, _split, bucketFromPoolEmbedded, shrinkLen.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS NB, LV, Revs, MaxPer,
          MaxIns,    \* bound: number of items in the arrays
          MaxOps,    \* bound: calls
          NV, Bug

W    == NB * LV
MAX  == 2^W - 1
DIG  == 2^NB
Keys == 1..Len(Revs)

VARIABLES pool,  \* bucket reverse -> [it: sequence of [r, k, v], cap]; v = 0: deleted
          list,  \* sequence of [r, k, v]; k = 0: dummy of a bucket
          tree,  \* radix tree: initialised slots
          m, len, hist
vars == <<pool, list, tree, m, len, hist>>

S == INSTANCE SkipMap WITH m <- <<m>>, rk <- Revs

-----------------------------------------------------------------------------
Digit(r, l) == (r \div 2^(W - l*NB)) % DIG
Prefix(p)   == LET RECURSIVE f(_)
                   f(i) == IF i > Len(p) THEN 0 ELSE p[i] * 2^(W - i*NB) + f(i+1)
               IN f(1)
PathOf(r, n) == [l \in 1..n |-> Digit(r, l)]
LevelOf(r)   == IF \A l \in 1..LV : Digit(r, l) = 0 THEN 0
                ELSE CHOOSE l \in 1..LV : Digit(r, l) # 0 /\ \A j \in (l+1)..LV : Digit(r, j) = 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

bks == DOMAIN pool \cup {MAX}

HasDown(p) == Append(p, 0) \in tree
Kids(p)    == IF HasDown(p) THEN {d \in 0..DIG-1 : Append(p, d) \in tree} ELSE {}
DownLen(p) == Max(Kids(p)) + 1
RECURSIVE Base(_)
Base(p) == IF Len(p) > 1 /\ p[Len(p)] = 0 THEN Base(SubSeq(p, 1, Len(p)-1)) ELSE p
RECURSIVE LargestDown(_)
LargestDown(p) ==
  LET c == {d \in Kids(p) : Prefix(Append(p, d)) # 0}
  IN IF c = {} THEN p ELSE LargestDown(Append(p, Max(c)))
RECURSIVE Find(_, _)
Find(p, r) ==
  IF Len(p) >= LV \/ ~HasDown(p) THEN p
  ELSE LET idx == Digit(r, Len(p) + 1)
       IN IF Append(p, idx) \in tree THEN Find(Append(p, idx), r)
          ELSE LET c == {d \in Kids(p) : d <= Min2(idx, DownLen(p) - 1)}
               IN IF c = {} THEN p ELSE LargestDown(Append(p, Max(c)))
BucketOf(r) == Prefix(Base(Find(<<Digit(r, 1)>>, r)))
Up(b) == Min({x \in bks : x > b})

-----------------------------------------------------------------------------
InsertAt(s, i, e) == SubSeq(s, 1, i-1) \o <<e>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i)    == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
DummyPos(l, b)    == CHOOSE i \in 1..Len(l) : l[i].k = 0 /\ l[i].r = b

\* add2: place of e in the list
AddPos(l, e) ==
  LET ok(x) == IF e.k = 0 \/ (Bug # "tail-dummy" /\ x.k = 0 /\ x.r = MAX) THEN e.r <= x.r ELSE e.r < x.r
  IN IF \A j \in 1..Len(l) : ~ok(l[j]) THEN Len(l) + 1
     ELSE CHOOSE i \in 1..Len(l) : ok(l[i]) /\ \A j \in 1..(i-1) : ~ok(l[j])
AddList(l, e) == InsertAt(l, AddPos(l, e), e)

\* binary search: number of elements below
Below(it, r)   == Cardinality({i \in 1..Len(it) : it[i].r < r})
BelowEq(it, r) == Cardinality({i \in 1..Len(it) : it[i].r <= r})

\* index of the live item of key k, 0 if there is none
Lookup(k) ==
  LET r  == Revs[k]
      it == pool[BucketOf(r)].it
      X  == {i \in 1..Len(it) : it[i].r = r /\ it[i].v # 0 /\ it[i].k = k}
  IN IF Bug = "bsearch-skips-deleted"
     THEN LET i == Below(it, r) + 1
          IN IF i <= Len(it) /\ it[i].v # 0 /\ it[i].k = k THEN i ELSE 0
     ELSE IF X = {} THEN 0 ELSE Min(X)

PoolCap(n) == IF n < 2 THEN 2
              ELSE CHOOSE c \in {4, 8, 16, 32} : c > n /\ \A d \in {4, 8, 16, 32} : d > n => c <= d

\* bsearchFromFreeList: index of a deleted item which may be reused for r, 0 if none
FreeFor(it, r) == LET i == BelowEq(it, r)
                      j == IF Bug = "free-slot-before" THEN i - 1 ELSE i
                  IN IF i <= 1 \/ j < 1 THEN 0 ELSE IF it[j].v = 0 THEN j ELSE 0

(* getWithFn: where the item for r goes: kind and the new capacity.  p: pool *)
RECURSIVE Place(_, _)
Place(p, r) ==
  LET n == Len(p.it)
  IN IF n = 0 THEN [how |-> "append", i |-> 1, cap |-> p.cap]
     ELSE IF FreeFor(p.it, r) # 0 THEN [how |-> "reuse", i |-> FreeFor(p.it, r), cap |-> p.cap]
     ELSE IF p.cap = n THEN Place([it |-> p.it, cap |-> PoolCap(n)], r)         \* expand
     ELSE IF p.it[n].r <= r THEN [how |-> "append", i |-> n+1, cap |-> p.cap]
     ELSE [how |-> "insert", i |-> BelowEq(p.it, r) + 1, cap |-> Max2(p.cap, n+1)]

\* new slots of the tree
NewSlots(r) == LET n == LevelOf(r)
               IN {PathOf(r, l) : l \in 2..n} \cup {Append(PathOf(r, l-1), 0) : l \in 2..n}

(* makeBucket2 on bucket b; st: [pool, list, tree] *)
RECURSIVE Split(_, _)
Split(st, b) ==
  LET up  == Min({x \in DOMAIN st.pool \cup {MAX} : x > b})
      h0  == up \div 2 + b \div 2
      h   == IF h0 % 2 = 1 THEN h0 + 1 ELSE h0
      it  == st.pool[b].it
      idx == IF Bug = "split-after" THEN BelowEq(it, h) ELSE Below(it, h)   \* findIdx
  IN IF Len(it) <= MaxPer \/ h <= b \/ h >= up \/ idx = Len(it)
        \/ (idx = 0 /\ Bug # "split-empty")
     THEN st
     ELSE LET lo == [it |-> SubSeq(it, 1, idx), cap |-> idx]
              hi == [it |-> SubSeq(it, idx+1, Len(it)), cap |-> st.pool[b].cap - idx]
              s1 == [pool |-> [x \in DOMAIN st.pool \cup {h} |->
                                 IF x = h THEN hi ELSE IF x = b THEN lo ELSE st.pool[x]],
                     list |-> AddList(st.list, [r |-> h, k |-> 0, v |-> 0]),
                     tree |-> st.tree \cup NewSlots(h)]
          IN IF Len(hi.it) > MaxPer THEN Split(s1, h) ELSE Split(s1, b)

Init ==
  /\ pool = [b \in {d * 2^(W-NB) : d \in 0..DIG-1} |-> [it |-> <<>>, cap |-> (MaxPer * 3) \div 2]]
  /\ list = [i \in 1..DIG |-> [r |-> (i-1) * 2^(W-NB), k |-> 0, v |-> 0]] \o <<[r |-> MAX, k |-> 0, v |-> 0]>>
  /\ tree = {<<d>> : d \in 0..DIG-1}
  /\ m = [k \in Keys |-> 0]
  /\ len = 0
  /\ hist = <<>>

Items == SumSet({0}) + Cardinality({i \in 1..Len(list) : list[i].k # 0})

Set(k) ==
  \E v \in {(m[k] % NV) + 1} : \E r \in {Revs[k]} : \E b \in {BucketOf(r)} : \E i \in {Lookup(k)} :
  \E p \in {pool[b]} : \E at \in {DummyPos(list, b)} :
  /\ hist' = Append(hist, <<"set", k>>)
  /\ m' = [m EXCEPT ![k] = v]
  /\ IF i # 0
     THEN /\ pool' = [pool EXCEPT ![b].it[i].v = v]
          /\ list' = [list EXCEPT ![at + i].v = v]     \* see SameOrder
          /\ UNCHANGED <<tree, len>>
     ELSE \E w \in {Place(p, r)} : \E e \in {[r |-> r, k |-> k, v |-> v]} :
          /\ len' = len + 1
          /\ Items < MaxIns \/ w.how = "reuse"
          /\ \E it \in {IF w.how = "reuse" THEN [p.it EXCEPT ![w.i] = e] ELSE InsertAt(p.it, w.i, e)} :
             \E l \in {AddList(IF w.how = "reuse" THEN RemoveAt(list, at + w.i) ELSE list, e)} :
             \E st \in {Split([pool |-> [pool EXCEPT ![b] = [it |-> it, cap |-> w.cap]],
                               list |-> l, tree |-> tree], b)} :
             /\ pool' = st.pool /\ list' = st.list /\ tree' = st.tree

\* shrinkLen: number of items that stay
RECURSIVE Kept(_)
Kept(it) == IF it = <<>> \/ it[Len(it)].v # 0 THEN Len(it) ELSE Kept(SubSeq(it, 1, Len(it)-1))

Remove(k, purge) ==
  \E b \in {BucketOf(Revs[k])} : \E i \in {Lookup(k)} : \E at \in {DummyPos(list, b)} :
  /\ hist' = Append(hist, <<IF purge THEN "purge" ELSE "del", k>>)
  /\ m' = [m EXCEPT ![k] = 0]
  /\ tree' = tree
  /\ IF i = 0 THEN UNCHANGED <<pool, list, len>>
     ELSE \E it \in {[pool[b].it EXCEPT ![i].v = 0]} : \E n \in {IF purge THEN Kept(it) ELSE Len(it)} :
          /\ len' = len - 1
          /\ pool' = [pool EXCEPT ![b].it = SubSeq(it, 1, n)]
          /\ list' = LET l == [list EXCEPT ![at + i].v = 0]
                     IN SubSeq(l, 1, at + n) \o SubSeq(l, at + Len(it) + 1, Len(l))

Next == /\ Len(hist) < MaxOps
        /\ \E k \in Keys : Set(k) \/ Remove(k, TRUE) \/ Remove(k, FALSE)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Found == \A k \in Keys : LET i == Lookup(k)
                         IN IF m[k] = 0 THEN i = 0 ELSE i # 0 /\ pool[BucketOf(Revs[k])].it[i].v = m[k]
Flat == LET X == SelectSeq(list, LAMBDA e : e.k # 0 /\ e.v # 0)
        IN [j \in 1..2*Len(X) |-> IF j % 2 = 1 THEN X[(j+1) \div 2].k ELSE X[j \div 2].v]
Enumerable == S!Enumerates(1, 0, Flat)
LenExact   == len = S!Count(1)

\* arrays: in order, within the range of the bucket, not larger than the capacity
Arrays == \A b \in DOMAIN pool :
            LET p == pool[b]
            IN /\ Len(p.it) <= p.cap /\ p.cap > 0
               /\ \A i \in 1..Len(p.it) : b <= p.it[i].r /\ (p.it[i].r < Up(b) \/ Up(b) = MAX)
               /\ \A i \in 1..Len(p.it)-1 : p.it[i].r <= p.it[i+1].r
\* the list has the items of the arrays in the same order, after the dummy of their bucket
SameOrder == \A b \in DOMAIN pool : LET d == DummyPos(list, b) IN
               /\ SubSeq(list, d+1, d + Len(pool[b].it)) = pool[b].it
               /\ d + Len(pool[b].it) < Len(list)
               /\ list[d + Len(pool[b].it) + 1].k = 0
FindExact == \A r \in 0..MAX : BucketOf(r) = Max({b \in DOMAIN pool : b <= r})

View == <<pool, list, tree, m, len>>
Refines == [][ \E k \in Keys : \/ \E v \in 1..NV : m' = [m EXCEPT ![k] = v]
                               \/ m' = [m EXCEPT ![k] = 0] ]_m
EmitC == PrintT("BEH " \o ToJson([ops |-> hist', bks |-> DOMAIN pool', rs |-> [i \in 1..Len(list') |-> list'[i].r]]))
=============================================================================
