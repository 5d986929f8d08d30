------------------------------ MODULE TraceLin ------------------------------
(***************************************************************************)
(* Linearizability of the calls on one key, recorded by concurrent         *)
(* goroutines.  A history is a sequence of                                 *)
(*    <<"c", id, op, arg, result>>   call (its result is known afterwards) *)
(*    <<"r", id>>                    return                                *)
(* Calls on different keys commute in SkipMap, so a map is linearizable    *)
(* with respect to its keys iff every one of these histories is.           *)
(*                                                                         *)
(* cs is the set of all configurations <<v, d>> which are possible so far: *)
(* v is the value of the key and d the set of calls that have taken effect *)
(* and not returned.  A call takes effect in one atomic step, given by     *)
(* SkipMap!KeyStep, somewhere between call and return; only when a call    *)
(* returns it matters which ones have.  If no configuration is left, the   *)
(* state has no successor and TLC reports a deadlock: the history has no   *)
(* linearization.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES h, l, pend, cs
vars == <<h, l, pend, cs>>

S == INSTANCE SkipMap WITH m <- <<>>, rk <- <<>>

H == Hist[h]
E == H.ev[l]

Init == /\ h \in 1..Len(Hist)
        /\ l = 1
        /\ pend = {}
        /\ cs = {<<Hist[h].init, {}>>}

(* calls whose result says that they changed nothing *)
Quiet(p) == p[2] \in {"get", "has"} \/ (p[2] \in {"del", "isetv"} /\ p[4] = 0)

(* A quiet call takes effect as soon as it can: a configuration in which it has  *)
(* and one in which it has not, of the same value, differ only in that the first *)
(* has one obligation less.                                                      *)
Absorb(P, c) == <<c[1], c[2] \cup {p[1] : p \in {q \in P : /\ Quiet(q)
                                                        /\ S!KeyStep(q[2], c[1], q[3], q[4]) # {}}}>>

(* one more pending call takes effect *)
Effect(c) == UNION { {Absorb(pend, <<v, c[2] \cup {p[1]}>>) : v \in S!KeyStep(p[2], c[1], p[3], p[4])}
                     : p \in {q \in pend : q[1] \notin c[2] /\ ~Quiet(q)} }

RECURSIVE Closure(_)
Closure(C) == LET D == C \cup UNION {Effect(c) : c \in C}
              IN IF D = C THEN C ELSE Closure(D)

CallEv == /\ E[1] = "c"
          /\ pend' = pend \cup {<<E[2], E[3], E[4], E[5]>>}
          /\ cs' = {Absorb(pend', c) : c \in cs}

RetEv  == /\ E[1] = "r"
          /\ pend' = {p \in pend : p[1] # E[2]}
          /\ LET C == {c \in Closure(cs) : E[2] \in c[2]}
             IN /\ C # {}
                /\ cs' = {<<c[1], c[2] \ {E[2]}>> : c \in C}

Step == /\ l <= Len(H.ev)
        /\ l' = l + 1
        /\ h' = h
        /\ CallEv \/ RetEv

Done == l > Len(H.ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

View == <<h, l>>
Alias == [h |-> h, l |-> l, id |-> H.id, pend |-> pend,
          ev |-> IF l <= Len(H.ev) THEN ToJson(E) ELSE "",
          values |-> {c[1] : c \in cs}]
=============================================================================
