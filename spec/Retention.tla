----------------------------- MODULE Retention -----------------------------
(***************************************************************************)
(* What keeps the entries of a map in memory.  The list of entries uses    *)
(* relative links, which the garbage collector does not see, so everything *)
(* that is linked has to be reachable in another way:                      *)
(*   default: Set and StoreItem put the item on a list of retained items;  *)
(*   UsePool: items are slots of an array of the pool; a full array is     *)
(*     copied to a larger one and the neighbours are linked to the copies; *)
(*   UseEmbeddedPool: as UsePool with one array per bucket, which a split  *)
(*     divides (both buckets refer to the same object then).               *)
(* A value is reachable from its item, if the collector looks into the     *)
(* object of the item.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Store,    \* "heap", "pool", "emb"
          NK,       \* keys 1..NK, in the order of the list
          Cap0,     \* first capacity of an array
          MaxObj, Bug

Keys == 1..NK

VARIABLES objs,    \* allocated objects: sequence of [kind, free, val: key -> value object or 0]
          list,    \* sequence of [k, o, del]: entries of the list and the object they are in
          arrs,    \* arrays that the map refers to: sequence of [o, ks: keys in order, cap]; "heap": unused
          kept,    \* objects on the list of retained items
          held     \* objects the user refers to
vars == <<objs, list, arrs, kept, held>>

Has(k) == \E i \in 1..Len(list) : list[i].k = k
At(k)  == CHOOSE i \in 1..Len(list) : list[i].k = k
NewO   == Len(objs) + 1
Obj(scan) == [free |-> FALSE, scan |-> scan]

Init ==
  /\ objs = IF Store = "heap" THEN <<>> ELSE <<Obj(TRUE)>>
  /\ arrs = IF Store = "heap" THEN <<>> ELSE <<[o |-> 1, ks |-> <<>>, cap |-> Cap0]>>
  /\ list = <<>> /\ kept = {} /\ held = {}

Ins(l, e) == LET n == Cardinality({i \in 1..Len(l) : l[i].k < e.k})
             IN SubSeq(l, 1, n) \o <<e>> \o SubSeq(l, n+1, Len(l))
\* entries of key set K which were in object o are now in object n
Moved(l, K, o, n) == [i \in 1..Len(l) |->
     IF l[i].k \in K /\ l[i].o = o /\ ~(Bug = "last-link-stays" /\ l[i].k = Max(K)) THEN [l[i] EXCEPT !.o = n] ELSE l[i]]
Scan == Bug # "noscan"

SetHeap(k) ==
  /\ Store = "heap" /\ ~Has(k) /\ NewO <= MaxObj
  /\ objs' = Append(objs, Obj(TRUE))
  /\ list' = Ins(list, [k |-> k, o |-> NewO, del |-> FALSE])
  /\ kept' = IF Bug = "set-not-retained" THEN kept ELSE kept \cup {NewO}
  /\ UNCHANGED <<arrs, held>>
StoreItem(k) ==   \* an object of the user
  /\ Store = "heap" /\ ~Has(k) /\ NewO <= MaxObj
  /\ objs' = Append(objs, Obj(TRUE))
  /\ list' = Ins(list, [k |-> k, o |-> NewO, del |-> FALSE])
  /\ held' = held \cup {NewO}
  /\ kept' = IF Bug = "store-not-retained" THEN kept ELSE kept \cup {NewO}
  /\ UNCHANGED arrs
Forget == held # {} /\ held' = {} /\ UNCHANGED <<objs, list, arrs, kept>>

\* pool: one array here; emb: the array of the bucket whose range has k (array i: keys from Low(i))
Low(i) == IF i = 1 THEN 0 ELSE arrs[i].ks[1]
ArrOf(k) == IF Store = "pool" THEN 1 ELSE CHOOSE i \in 1..Len(arrs) : Low(i) <= k /\ \A j \in 1..Len(arrs) : Low(j) <= k => Low(j) <= Low(i)
InsK(s, k) == IF Store = "pool" THEN Append(s, k)
              ELSE SelectSeq(s, LAMBDA x : x < k) \o <<k>> \o SelectSeq(s, LAMBDA x : x > k)
SetArr(k) ==
  /\ Store # "heap" /\ ~Has(k)
  /\ LET i == ArrOf(k)  a == arrs[i]
         copy == Len(a.ks) = a.cap \/ (Store = "emb" /\ a.ks # <<>> /\ Last(a.ks) > k)
     IN IF ~copy
        THEN /\ list' = Ins(list, [k |-> k, o |-> a.o, del |-> FALSE])
             /\ arrs' = [arrs EXCEPT ![i].ks = Append(@, k)]
             /\ UNCHANGED <<objs, kept, held>>
        ELSE /\ NewO <= MaxObj
             /\ objs' = Append(objs, Obj(Scan))
             /\ list' = Ins(Moved(list, ToSet(a.ks), a.o, NewO), [k |-> k, o |-> NewO, del |-> FALSE])
             /\ arrs' = [arrs EXCEPT ![i] = [o |-> NewO, ks |-> InsK(a.ks, k),
                                             cap |-> IF Len(a.ks) = a.cap THEN a.cap + 2 ELSE a.cap]]
             /\ UNCHANGED <<kept, held>>

Split(i, n) ==   \* array i is divided after n items
  /\ Store = "emb" /\ n \in 1..Len(arrs[i].ks)-1
  /\ arrs' = [j \in 1..Len(arrs)+1 |->
                IF j = i THEN [arrs[i] EXCEPT !.ks = SubSeq(@, 1, n), !.cap = n]
                ELSE IF j <= Len(arrs) THEN arrs[j]
                ELSE [o |-> arrs[i].o, ks |-> SubSeq(arrs[i].ks, n+1, Len(arrs[i].ks)), cap |-> arrs[i].cap - n]]
  /\ UNCHANGED <<objs, list, kept, held>>

Delete(k) ==   \* the entry stays linked
  /\ Has(k) /\ ~list[At(k)].del
  /\ list' = [list EXCEPT ![At(k)].del = TRUE]
  /\ UNCHANGED <<objs, arrs, kept, held>>

Visible == kept \cup held \cup {arrs[i].o : i \in 1..Len(arrs)}
GC == /\ \E o \in 1..Len(objs) : ~objs[o].free /\ o \notin Visible
      /\ objs' = [o \in 1..Len(objs) |-> IF o \in Visible THEN objs[o] ELSE [objs[o] EXCEPT !.free = TRUE]]
      /\ UNCHANGED <<list, arrs, kept, held>>

Next == \/ \E k \in Keys : SetHeap(k) \/ StoreItem(k) \/ SetArr(k) \/ Delete(k)
        \/ \E i \in 1..Len(arrs), n \in 1..NK : Split(i, n)
        \/ Forget \/ GC
Spec == Init /\ [][Next]_vars

\* everything that is linked is there, deleted entries too: the list runs through them
Linked == \A i \in 1..Len(list) : ~objs[list[i].o].free
\* ... and will be there after the next collection
Safe == \A i \in 1..Len(list) : list[i].o \in Visible
\* values of live entries: the collector looks into the object
Values == \A i \in 1..Len(list) : ~list[i].del => objs[list[i].o].scan
Where == \A i \in 1..Len(arrs) : \A j \in 1..Len(arrs[i].ks) : Has(arrs[i].ks[j]) /\ list[At(arrs[i].ks[j])].o = arrs[i].o
=============================================================================
