----------------------------- MODULE HeapIndex -----------------------------
(***************************************************************************)
(* The index of a map whose items are allocated one by one (default and    *)
(* UsePool): one list of entries ordered by bit-reversed hash, cut into    *)
(* buckets.  Every bucket is marked by a dummy entry, a bucket is found    *)
(* through a radix tree of NB bits per level (4 in the code, 16 levels).   *)
(* A bucket which becomes too long is split in the middle of its range.    *)
(*                                                                         *)
(* Every public call is one action (the code holds opMu exclusively).      *)
(* Algorithms are those of map.go: set/_set/add2, makeBucket,              *)
(* bucketFromPool, _findBucket, largestDown, searchBucket4Key4,            *)
(* _searchBybucket (per search mode), sameHashEntry, delete, rangeItem.    *)
(*                                                                         *)
(* Bug names a change to one of them, "" for the code as it is.  It shows  *)
(* that the invariants are able to fail (HeapIndexBug*.cfg).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS NB,      \* bits of one level
          LV,      \* levels
          Revs,    \* sequence: reversed hash of key k
          MaxPer,  \* maxPerBucket
          MaxIns,  \* bound: entries ever inserted
          NV,      \* number of different values
          Bug

W    == NB * LV
MAX  == 2^W - 1            \* reverse of the last dummy
DIG  == 2^NB
Keys == 1..Len(Revs)       \* two keys of the same reverse differ in the conflict value

VARIABLES list,  \* sequence of entries [r: reverse, k: key, v: value]; k = 0: dummy; v = 0: deleted
          bks,   \* reverses of the buckets in the bucket list (MAX: the end bucket)
          tree,  \* radix tree: set of initialised slots, each a path (sequence of digits)
          nlen,  \* path -> _len of the slot
          m,     \* what the user sees (SkipMap)
          len,   \* Len()
          hist   \* calls so far, for generating behaviours; not part of the state
vars == <<list, bks, tree, nlen, m, len, hist>>

S == INSTANCE SkipMap WITH m <- <<m>>, rk <- Revs

-----------------------------------------------------------------------------
Digit(r, l) == (r \div 2^(W - l*NB)) % DIG          \* l-th digit from the top, 1..LV
Prefix(p)   == LET RECURSIVE f(_)
                   f(i) == IF i > Len(p) THEN 0 ELSE p[i] * 2^(W - i*NB) + f(i+1)
               IN f(1)
PathOf(r, n) == [l \in 1..n |-> Digit(r, l)]
LevelOf(r)   == IF \A l \in 1..LV : Digit(r, l) = 0 THEN 0
                ELSE CHOOSE l \in 1..LV : Digit(r, l) # 0 /\ \A j \in (l+1)..LV : Digit(r, j) = 0
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

HasDown(p) == Append(p, 0) \in tree               \* slot 0 is made first
Kids(p)    == IF HasDown(p) THEN {d \in 0..DIG-1 : Append(p, d) \in tree} ELSE {}
DownLen(p) == Max(Kids(p)) + 1

\* slot 0 of a level stands for its parent
RECURSIVE Base(_)
Base(p) == IF Len(p) > 1 /\ p[Len(p)] = 0 THEN Base(SubSeq(p, 1, Len(p)-1)) ELSE p
IsAlias(p) == Base(p) # p

RECURSIVE LargestDown(_)
LargestDown(p) ==
  LET c == {d \in Kids(p) : Prefix(Append(p, d)) # 0}
  IN IF c = {} THEN p ELSE LargestDown(Append(p, Max(c)))

RECURSIVE Find(_, _)
Find(p, r) ==   \* p: slot reached on level Len(p)
  IF Len(p) >= LV \/ ~HasDown(p) THEN p
  ELSE LET idx == Digit(r, Len(p) + 1)
       IN IF idx \in Kids(p) /\ idx < DownLen(p) THEN Find(Append(p, idx), r)
          ELSE LET c == {d \in Kids(p) : d <= Min2(idx, DownLen(p) - 1)}
               IN IF c = {} THEN p
                  ELSE IF Bug = "no-largest-down" THEN Append(p, Max(c))
                  ELSE LargestDown(Append(p, Max(c)))

FindBucket(r) == Find(<<Digit(r, 1)>>, r)
BRev(p) == Prefix(p)                                \* reverse of the slot

\* neighbours in the bucket list
Up(b)   == LET X == {x \in bks : x > b} IN IF X = {} THEN b ELSE Min(X)
Down(b) == LET X == {x \in bks : x < b} IN IF X = {} THEN b ELSE Max(X)

-----------------------------------------------------------------------------
(* the list *)
DummyPos(b) == CHOOSE i \in 1..Len(list) : list[i].k = 0 /\ list[i].r = b
Ignored(e)  == e.k = 0 \/ e.v = 0
InsertAt(s, i, e) == SubSeq(s, 1, i-1) \o <<e>> \o SubSeq(s, i, Len(s))

\* position for a new entry, searching from position s on (add2)
AddPos(l, s, e) ==
  LET ok(x) == IF e.k = 0 \/ (x.k = 0 /\ x.r = MAX)
               THEN e.r <= x.r
               ELSE IF Bug = "before-equal" THEN e.r <= x.r ELSE e.r < x.r
  IN CHOOSE i \in s..Len(l) : ok(l[i]) /\ \A j \in s..(i-1) : ~ok(l[j])

\* _searchBybucket; result: position or 0
RECURSIVE Fwd(_, _), Bwd(_, _)
Fwd(i, r) == IF i > Len(list) THEN 0
             ELSE IF Ignored(list[i]) \/ list[i].r < r THEN Fwd(i+1, r)
             ELSE IF list[i].r = r THEN i ELSE 0
Bwd(i, r) == IF i < 1 THEN 0
             ELSE IF Ignored(list[i]) \/ list[i].r > r THEN Bwd(i-1, r)
             ELSE IF list[i].r = r THEN i ELSE 0
SearchFrom(b, r) == IF b <= r THEN Fwd(DummyPos(b), r) ELSE Bwd(DummyPos(b), r)

\* the entry of key k among those of the same hash, starting at position i
Same(i, k) == IF i = 0 THEN 0
              ELSE LET X == {j \in 1..Len(list) : /\ list[j].k = k /\ list[j].v # 0
                                                  /\ \A x \in (Min2(i,j))..(IF i > j THEN i ELSE j) :
                                                        list[x].r = Revs[k]}
                   IN IF Bug = "first-of-hash" THEN (IF list[i].k = k THEN i ELSE 0)
                      ELSE IF X = {} THEN 0 ELSE Min(X)

(* The bucket in which modes start.  CombineSearch2 goes to a neighbour on  *)
(* the same level if the bucket lies above; the result must not depend on   *)
(* which one that is, so any bucket will do.                                *)
Starts(r, mode) ==
  LET p  == FindBucket(r)
      b  == BRev(Base(p))
      u  == IF IsAlias(p) THEN BRev(p) ELSE Up(b)
      b2 == IF mode # "combine" /\ u > r /\ Abs(u - r) <= Abs(b - r) /\ u # b THEN u ELSE b
  IN IF mode = "combine2" /\ b2 > r THEN bks \ {MAX} ELSE {b2}

\* positions which a lookup may return
Lookup(k, mode) == {Same(SearchFrom(b, Revs[k]), k) : b \in Starts(Revs[k], mode)}
LookupUpdate(k) == Same(SearchFrom(BRev(Base(FindBucket(Revs[k]))), Revs[k]), k)

-----------------------------------------------------------------------------
Init ==
  /\ bks = {d * 2^(W-NB) : d \in 0..DIG-1} \cup {MAX}
  /\ list = [i \in 1..DIG |-> [r |-> (i-1) * 2^(W-NB), k |-> 0, v |-> 0]] \o <<[r |-> MAX, k |-> 0, v |-> 0]>>
  /\ tree = {<<d>> : d \in 0..DIG-1}
  /\ nlen = [p \in {<<d>> : d \in 0..DIG-1} |-> 0]
  /\ m = [k \in Keys |-> 0]
  /\ len = 0
  /\ hist = <<>>

\* bucketFromPool: slots on the way to r
NewSlots(r) == LET n == LevelOf(r)
               IN {PathOf(r, l) : l \in 2..n} \cup {Append(PathOf(r, l-1), 0) : l \in 2..n}

(* makeBucket, called with the entry before the new one.  l, nl: list and   *)
(* lengths after the insertion.  Result: [ok, r] reverse of the new bucket. *)
SplitAt(prev) ==
  LET cs == {b \in bks : b <= prev /\ b # MAX}
      c  == Max(cs)
      n  == Up(c)
      h  == IF Bug = "half-of-range" THEN (n - c) \div 2 + c + 1
            ELSE IF n = MAX THEN c \div 2 + MAX \div 2 + 1 ELSE c + (n - c) \div 2
  IN IF cs = {} \/ (prev = 0 /\ c = 0) \/ h <= c \/ h >= n THEN [ok |-> FALSE, c |-> 0, r |-> 0]
     ELSE [ok |-> TRUE, c |-> c, r |-> h]

NlenOf(f, p) == IF p \in DOMAIN f THEN f[p] ELSE 0

\* (existential quantifiers over one value make TLC evaluate it once)
Insert(k, v) ==
  \E r  \in {Revs[k]} :
  \E p  \in {FindBucket(r)} :
  \E e  \in {[r |-> r, k |-> k, v |-> v]} :
  \E pos \in {AddPos(list, DummyPos(BRev(Base(p))), e)} :
  \E l1 \in {InsertAt(list, pos, e)} :
  \E n1 \in {[x \in DOMAIN nlen \cup {p} |-> NlenOf(nlen, x) + (IF x = p THEN 1 ELSE 0)]} :
  \E sp \in {IF n1[p] > MaxPer THEN SplitAt(l1[pos-1].r) ELSE [ok |-> FALSE, c |-> 0, r |-> 0]} :
     /\ m' = [m EXCEPT ![k] = v]
     /\ len' = len + 1
     /\ IF sp.ok
        THEN \E np \in {PathOf(sp.r, LevelOf(sp.r))} :
             \E new \in {NewSlots(sp.r)} :
             \E cp \in {CHOOSE q \in tree : BRev(q) = sp.c /\ ~IsAlias(q)} :
             \E lo \in {CHOOSE j \in 1..Len(l1) : l1[j].k = 0 /\ l1[j].r = sp.c} :
             \E cnt \in {Min({j \in 1..Len(l1) : l1[j].r > sp.r}) - lo + 1} :
             \E d \in {[r |-> sp.r, k |-> 0, v |-> 0]} :
             /\ bks' = bks \cup {sp.r}
             /\ tree' = tree \cup new
             /\ list' = InsertAt(l1, AddPos(l1, lo, d), d)
             /\ nlen' = [x \in DOMAIN n1 \cup new |->
                           IF x = np THEN NlenOf(n1, x) + cnt
                           ELSE IF x = cp THEN NlenOf(n1, x) - cnt ELSE NlenOf(n1, x)]
        ELSE /\ list' = l1 /\ nlen' = n1 /\ UNCHANGED <<bks, tree>>

Inserted == Cardinality({i \in 1..Len(list) : list[i].k # 0})

Set(k) ==
  \E v \in {(m[k] % NV) + 1} : \E i \in {LookupUpdate(k)} :
     /\ hist' = Append(hist, <<"set", k>>)
     /\ IF i # 0
        THEN /\ list' = [list EXCEPT ![i].v = v]
             /\ m' = [m EXCEPT ![k] = v]
             /\ UNCHANGED <<bks, tree, nlen, len>>
        ELSE Inserted < MaxIns /\ Insert(k, v)

Del(k) ==
  \E i \in {LookupUpdate(k)} :
     /\ hist' = Append(hist, <<"del", k>>)
     /\ m' = [m EXCEPT ![k] = 0]
     /\ list' = IF i = 0 THEN list ELSE [list EXCEPT ![i].v = 0]
     /\ len' = IF i = 0 /\ Bug # "len-always" THEN len ELSE len - 1
     /\ UNCHANGED <<bks, tree, nlen>>

Next == \E k \in Keys : Set(k) \/ Del(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

\* C01 C02 C04 C06 C08: in every search mode exactly the live keys are found, with their value
Modes == {"near", "combine", "combine2"}
Found == \A k \in Keys, md \in Modes : \A i \in Lookup(k, md) :
            IF m[k] = 0 THEN i = 0 ELSE i # 0 /\ list[i].k = k /\ list[i].v = m[k]
FoundUpdate == \A k \in Keys : LET i == LookupUpdate(k)
               IN IF m[k] = 0 THEN i = 0 ELSE i # 0 /\ list[i].k = k /\ list[i].v = m[k]

\* C03: what an enumeration delivers is what SkipMap allows
Flat == LET X == SelectSeq(list, LAMBDA e : ~Ignored(e))
        IN [j \in 1..2*Len(X) |-> IF j % 2 = 1 THEN X[(j+1) \div 2].k ELSE X[j \div 2].v]
Enumerable == S!Enumerates(1, 0, Flat)

\* C05
LenExact == len = S!Count(1)

\* structure
Ordered == \A i \in 1..Len(list)-1 : list[i].r <= list[i+1].r
\* an entry stays behind the dummy of its bucket and before the last dummy
Placed  == /\ list[Len(list)].r = MAX /\ list[Len(list)].k = 0
           /\ \A i \in 1..Len(list) : list[i].k # 0 => \A b \in bks \ {MAX} :
                  (b <= list[i].r) <=> DummyPos(b) < i
\* the bucket found is the one whose range contains the hash
FindExact == \A r \in 0..MAX : BRev(Base(FindBucket(r))) = Max({b \in bks \ {MAX} : b <= r})
\* every bucket has its slot, and the slots above it exist
Slots == /\ \A b \in bks \ {MAX} : LevelOf(b) = 0 \/ PathOf(b, LevelOf(b)) \in tree
         /\ \A p \in tree : Len(p) > 1 => SubSeq(p, 1, Len(p)-1) \in tree

View == <<list, bks, tree, nlen, m, len>>

(* refinement: every step is a call of SkipMap *)
Abs1 == S!Count(1) >= 0
Refines == [][ \E k \in Keys : \/ \E v \in 1..NV : m' = [m EXCEPT ![k] = v]
                               \/ m' = [m EXCEPT ![k] = 0] ]_m

\* one behaviour for every transition of the explored graph
EmitC == PrintT("BEH " \o ToJson([ops |-> hist', bks |-> bks', rs |-> [i \in 1..Len(list') |-> list'[i].r]]))
=============================================================================
