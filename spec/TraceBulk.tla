----------------------------- MODULE TraceBulk -----------------------------
(* Validates recorded bulk histories against BulkMap, as TraceSeq does for SkipMap. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES h, l, m, sz
vars == <<h, l, m, sz>>

B == INSTANCE BulkMap

T == Traces[h]
E == T.ev[l]
Op == E[1]
ToSet(q) == {q[j] : j \in DOMAIN q}

Init == /\ h \in 1..Len(Traces)
        /\ l = 1
        /\ sz = Traces[h].sz
        /\ m = [b \in DOMAIN Traces[h].sz |-> 0]

Step ==
  /\ l <= Len(T.ev)
  /\ l' = l + 1
  /\ h' = h
  /\ \/ Op \in {"set", "isetv", "del", "get", "has"} /\ B!Call(Op, E[2], E[3], E[4])
     \/ Op = "each"   /\ B!Each(E[2], E[3], E[4])
     \/ Op = "churn"  /\ B!Churn(E[2], E[3], E[4], E[5])
     \/ Op = "stairs" /\ B!Stairs(E[2], E[3], E[4], E[5])
     \/ Op = "hot"    /\ B!Hot(E[2], ToSet(E[3]), E[4], E[5], E[6])
     \/ Op = "len"    /\ B!Len_(E[2])
     \/ Op = "range"  /\ B!Range(ToSet(E[2]), E[3], E[4])
     \/ Op = "crange" /\ B!RangeDuring(ToSet(E[5]), ToSet(E[6]), ToSet(E[2]), E[3], E[4])
     \/ Op = "gc"     /\ UNCHANGED <<m, sz>>

Done == l > Len(T.ev) /\ UNCHANGED vars
Next == Step \/ Done
View == <<h, l>>
Alias == [h |-> h, l |-> l, id |-> T.id, ev |-> IF l <= Len(T.ev) THEN ToJson(E) ELSE "",
          want |-> IF l <= Len(T.ev) /\ Op \in {"set", "isetv", "del", "get", "has"} THEN m[E[2]] ELSE B!Count]
Spec == Init /\ [][Next]_vars
=============================================================================
