----------------------------- MODULE SkipMapMC -----------------------------
(***************************************************************************)
(* SkipMap on its own: every call the trace specifications accept, with    *)
(* every result it can have.  Laws a user relies on are checked here, so   *)
(* that the oracle of the traces is itself checked.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS NI, NK, NV, Ranks
VARIABLES m, rk, ev     \* ev: the call that was made last
vars == <<m, rk, ev>>
View == m
R1 == <<1, 2, 1>>
S == INSTANCE SkipMap

Maps == 1..NI
Keys == 1..NK
Vals == 1..NV

Init == m = [i \in Maps |-> [k \in Keys |-> 0]] /\ rk = Ranks /\ ev = <<>>

KeyCalls == \E i \in Maps, k \in Keys, op \in {"set", "isetv", "del", "get", "has"}, a \in Vals, r \in 0..NV :
               S!Call(op, i, k, a, r) /\ ev' = <<op, i, k, a, r>>
LenCall  == \E i \in Maps, n \in 0..NK : S!Len_(i, n) /\ ev' = <<"len", i, n>>
\* all sequences an enumeration could deliver
Pairs == Keys \X Vals
Lists == UNION {[1..n -> Pairs] : n \in 0..NK}
RangeCall == \E i \in Maps, stop \in 0..NK, s \in Lists :
               /\ S!Range(i, stop, [j \in 1..2*Len(s) |-> IF j % 2 = 1 THEN s[(j+1) \div 2][1] ELSE s[j \div 2][2]])
               /\ ev' = <<"range", i, stop, s>>
SearchCall == \E i \in Maps, k \in Keys, kn \in 0..NK, v \in 0..NV :
               S!Search(i, k, kn, v) /\ (kn = 0 => v = 0) /\ ev' = <<"search", i, k, kn, v>>
DumpLists == UNION {[1..n -> Keys] : n \in 0..NK}
DumpCall == \E i \in Maps, s \in DumpLists : S!Dump(i, s) /\ ev' = <<"dump", i, s>>
Next == (KeyCalls \/ SearchCall \/ DumpCall \/ LenCall \/ RangeCall) /\ rk' = rk
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == m \in [Maps -> [Keys -> 0..NV]]
\* a call changes at most one key of one map (C01, C14)
OneKey == [][ \A i1, i2 \in Maps, k1, k2 \in Keys :
                (m'[i1][k1] # m[i1][k1] /\ m'[i2][k2] # m[i2][k2]) => i1 = i2 /\ k1 = k2 ]_vars
Reading == [][ ev'[1] \in {"get", "has", "len", "range", "search", "dump"} => m' = m ]_vars
\* the results are determined
Determined == [][ /\ ev'[1] = "get" => ev'[5] = m[ev'[2]][ev'[3]]
                  /\ ev'[1] = "set" => m'[ev'[2]][ev'[3]] = ev'[4]
                  /\ ev'[1] = "del" => m'[ev'[2]][ev'[3]] = 0 /\ ev'[5] = S!Bool(m[ev'[2]][ev'[3]] # 0)
                  /\ ev'[1] = "isetv" => (m'[ev'[2]][ev'[3]] # 0) = (m[ev'[2]][ev'[3]] # 0)
                  /\ ev'[1] = "len" => ev'[3] = Cardinality({k \in Keys : m[ev'[2]][k] # 0}) ]_vars
\* an enumeration without stop delivers exactly the content, in the order of the ranks; there is always one
RangeLaw == [][ ev'[1] = "range" =>
                LET i == ev'[2]  s == ev'[4]
                IN /\ {s[j][1] : j \in 1..Len(s)} \subseteq S!Live(i)
                   /\ ev'[3] = 0 => {s[j] : j \in 1..Len(s)} = {<<k, m[i][k]>> : k \in S!Live(i)}
                   /\ ev'[3] > 0 => Len(s) = Min({ev'[3], S!Count(i)})
                   /\ \A j1, j2 \in 1..Len(s) : j1 < j2 => s[j1][1] # s[j2][1] /\ rk[s[j1][1]] <= rk[s[j2][1]]
                   /\ \A j \in 1..Len(s), k \in S!Live(i) \ {s[x][1] : x \in 1..Len(s)} : rk[s[j][1]] <= rk[k] ]_vars
\* a search without live key of the hash finds nothing, and finds the key itself if it is the only one
SearchLaw == [][ ev'[1] = "search" =>
                 LET i == ev'[2]  k == ev'[3]  kn == ev'[4]
                     C == {x \in S!Live(i) : rk[x] = rk[k]}
                 IN /\ (kn = 0) = (C = {})
                    /\ kn # 0 => kn \in C /\ ev'[5] = m[i][kn]
                    /\ C = {k} => kn = k ]_vars
DumpExists == \A i \in Maps : ENABLED (DumpCall /\ ev'[2] = i)
RangeExists == \A i \in Maps, stop \in 0..NK : ENABLED (RangeCall /\ ev'[2] = i /\ ev'[3] = stop)
=============================================================================
