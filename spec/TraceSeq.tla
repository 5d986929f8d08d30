------------------------------ MODULE TraceSeq ------------------------------
(***************************************************************************)
(* Validates recorded sequential histories against SkipMap.  The input is  *)
(* a file of traces (one JSON object per line); each trace is one initial  *)
(* state.  A trace is consumed event by event with the actions of SkipMap; *)
(* a state in which the next event is impossible is a deadlock, and that   *)
(* is the rejection of the trace.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES h, l, m
vars == <<h, l, m>>

S == INSTANCE SkipMap WITH rk <- Traces[h].rank

T == Traces[h]
E == T.ev[l]
Op == E[1]

Init == /\ h \in 1..Len(Traces)
        /\ l = 1
        /\ m = [i \in 1..Traces[h].ni |-> [k \in 1..Traces[h].nk |-> 0]]

IsGet   == Op \in {"get", "getb", "geth", "load", "loadh"}
IsRange == Op \in {"range", "rangei", "walk", "walkb"}

Step ==
  /\ l <= Len(T.ev)
  /\ l' = l + 1
  /\ h' = h
  /\ \/ Op = "set"   /\ S!Set(E[2], E[3], E[4], E[5])
     \/ Op = "isetv" /\ S!ItemSet(E[2], E[3], E[4], E[5])
     \/ Op \in {"del", "purge"} /\ S!Remove(E[2], E[3], E[4])
     \/ IsGet        /\ S!Get(E[2], E[3], E[4])
     \/ Op = "len"   /\ S!Len_(E[2], E[3])
     \/ IsRange      /\ S!Range(E[2], E[3], E[4])
     \/ Op = "has"   /\ S!Has(E[2], E[3], E[4])
     \/ Op = "search" /\ S!Search(E[2], E[3], E[4], E[5])
     \/ Op = "dump"  /\ S!Dump(E[2], E[4])
     \/ Op = "crange" /\ S!ConcRange(E[2], E[4])  \* values: see TraceLin
     \/ Op \in {"gc", "opt"} /\ S!Nop
     \* content found after a concurrent phase (checked by TraceLin): taken over
     \/ Op = "adopt" /\ m' = [m EXCEPT ![E[2]][E[3]] = E[4]]

Done == l > Len(T.ev) /\ UNCHANGED vars

Next == Step \/ Done

View == <<h, l>>
(* what is shown of a state when a trace is rejected *)
Alias == [h |-> h, l |-> l, id |-> T.id,
          ev |-> IF l <= Len(T.ev) THEN ToJson(E) ELSE "",
          want |-> IF l <= Len(T.ev) /\ Len(E) >= 3 /\ Op \notin {"panic", "hang"}
                   THEN IF Op = "len" THEN S!Count(E[2])
                        ELSE IF E[3] \in DOMAIN m[E[2]] THEN m[E[2]][E[3]] ELSE 0
                   ELSE 0]
Spec == Init /\ [][Next]_vars
=============================================================================
