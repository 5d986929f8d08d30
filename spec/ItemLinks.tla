----------------------------- MODULE ItemLinks -----------------------------
(***************************************************************************)
(* Items with an identity.  An item is a node which is linked into the     *)
(* list of a map when it is stored, and the user may hold on to it: store  *)
(* it again after its key was deleted (deleted items stay in the list),    *)
(* store it under its key in another map, take it out of one map with      *)
(* LoadItem or RangeItem and store it in a second one, or set its value.   *)
(* A node has one pair of links, so StoreItem has to put a copy into the   *)
(* list when the item is in a list already.                                *)
(* c is what SkipMap says about the contents; the lists have to show it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NM, NK, NV, NI, MaxOps, Bug

VARIABLES it,      \* items: sequence of [k, v, del]
          held,    \* items the user refers to
          nx, pv,  \* links of the items and of the heads (head of map m is -m)
          c,       \* c[m][k]: contents according to SkipMap
          n,
          hist     \* calls so far, for generating behaviours; not part of the state
vars == <<it, held, nx, pv, c, n, hist>>
View == <<it, held, nx, pv, c>>
ViewN == <<View, n>>

Maps == 1..NM
Keys == 1..NK

Init ==
  /\ it = <<>> /\ held = {} /\ n = 0 /\ hist = <<>>
  /\ nx = [x \in (0-NM)..0-1 |-> x]   \* circular
  /\ pv = nx
  /\ c = [m \in Maps |-> [k \in Keys |-> 0]]

\* nodes of a list from x on; bounded, because a broken list may have no end
RECURSIVE Walk(_, _, _, _)
Walk(f, m, x, left) ==
  IF x = 0 - m \/ left = 0 THEN <<>> ELSE <<x>> \o Walk(f, m, f[x], left - 1)
Fwd(m) == Walk(nx, m, nx[0-m], 2 * NI)
Bwd(m) == Walk(pv, m, pv[0-m], 2 * NI)
Item(x) == x > 0
Alive(s) == SelectSeq(s, LAMBDA x : Item(x) /\ ~it[x].del)
LiveOf(m, k) == {x \in {Fwd(m)[j] : j \in 1..Len(Fwd(m))} : Item(x) /\ it[x].k = k /\ ~it[x].del}

Op(o, i, k, a) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, <<o, i, k, a>>)

\* NewSampleItem
New(k, v) ==
  /\ Op("inew", 1, k, Len(it) + 1) /\ Len(it) < NI
  /\ it' = Append(it, [k |-> k, v |-> v, del |-> FALSE])
  /\ held' = held \cup {Len(it) + 1}
  /\ nx' = nx @@ (Len(it) + 1 :> Len(it) + 1)
  /\ pv' = pv @@ (Len(it) + 1 :> Len(it) + 1)
  /\ UNCHANGED c

Linked(x) == nx[x] # x
InMap(m, x) == \E j \in 1..Len(Fwd(m)) : Fwd(m)[j] = x
MustCopy(m, x) ==
  CASE Bug = "relink"       -> FALSE
    [] Bug = "this-map"     -> InMap(m, x)
    [] Bug = "deleted-only" -> it[x].del
    [] OTHER                -> Linked(x)

\* x into the list of m: before the first node with a greater or equal key
Place(m, x, t, f, b) ==
  LET w == Fwd(m)
      a == {j \in 1..Len(w) : Item(w[j]) => t[w[j]].k >= t[x].k}
      s == IF a = {} THEN 0 - m ELSE w[CHOOSE j \in a : \A i \in a : j <= i]
      p == pv[s]
  IN /\ nx' = (x :> s) @@ [f EXCEPT ![p] = x]
     /\ pv' = (x :> p) @@ [b EXCEPT ![s] = x]

StoreItem(m, x) ==
  /\ Op("ist", m, it[x].k, x) /\ x \in held
  /\ c' = [c EXCEPT ![m][it[x].k] = it[x].v]
  /\ held' = held
  /\ IF LiveOf(m, it[x].k) # {}
     THEN /\ it' = [y \in 1..Len(it) |-> IF y \in LiveOf(m, it[x].k) THEN [it[y] EXCEPT !.v = it[x].v] ELSE it[y]]
          /\ UNCHANGED <<nx, pv>>
     ELSE IF MustCopy(m, x)
     THEN /\ Len(it) < NI
          /\ it' = Append(it, [it[x] EXCEPT !.del = FALSE])
          /\ LET y == Len(it) + 1 IN Place(m, y, it', nx @@ (y :> y), pv @@ (y :> y))
     ELSE /\ it' = [it EXCEPT ![x].del = FALSE]
          /\ Place(m, x, it', nx, pv)

Delete(m, k) ==
  /\ Op("del", m, k, 0)
  /\ c' = [c EXCEPT ![m][k] = 0]
  /\ it' = [y \in 1..Len(it) |-> IF y \in LiveOf(m, k) THEN [it[y] EXCEPT !.del = TRUE] ELSE it[y]]
  /\ UNCHANGED <<held, nx, pv>>

Load(m, k) == /\ \E x \in LiveOf(m, k) : Op("ild", m, k, x)
              /\ LiveOf(m, k) # {} /\ held' = held \cup LiveOf(m, k) /\ UNCHANGED <<it, nx, pv, c>>

\* a value set in an item is set in the map which has the item
SetValue(x, v) ==
  /\ LET ms == {m \in Maps : x \in LiveOf(m, it[x].k)}
     IN IF ms = {} THEN Op("isv0", 1, it[x].k, x) ELSE Op("isv", CHOOSE m \in ms : TRUE, it[x].k, x)
  /\ x \in held
  /\ it' = [it EXCEPT ![x].v = v]
  /\ c' = [m \in Maps |-> [k \in Keys |-> IF x \in LiveOf(m, k) THEN v ELSE c[m][k]]]
  /\ UNCHANGED <<held, nx, pv>>

Next == \/ \E k \in Keys, v \in 1..NV : New(k, v)
        \/ \E m \in Maps, x \in 1..Len(it) : StoreItem(m, x)
        \/ \E m \in Maps, k \in Keys : Delete(m, k) \/ Load(m, k)
        \/ \E x \in 1..Len(it), v \in 1..NV : SetValue(x, v)
Spec == Init /\ [][Next]_vars

Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Content(s) == [k \in Keys |-> IF \E j \in 1..Len(s) : it[s[j]].k = k
                              THEN it[s[CHOOSE j \in 1..Len(s) : it[s[j]].k = k]].v ELSE 0]

(* the lists are well formed and show the contents *)
Shows ==
  \A m \in Maps :
    /\ \A j \in 1..Len(Fwd(m)) : Item(Fwd(m)[j])
    /\ Bwd(m) = Rev(Fwd(m))
    /\ LET a == Alive(Fwd(m))
       IN /\ \A j \in 1..Len(a)-1 : it[a[j]].k < it[a[j+1]].k
          /\ Content(a) = c[m]
EmitC == PrintT("BEH " \o ToJson([ops |-> hist']))
OneMap == \A x \in 1..Len(it) : Cardinality({m \in Maps : InMap(m, x)}) <= 1
=============================================================================
