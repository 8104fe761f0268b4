------------------------------- MODULE SeqMon -------------------------------
(***************************************************************************)
(* The sequential sorted map: what a single goroutine observes. Judges      *)
(* histories of sequences of calls recorded from the real code, on two maps *)
(* used alternately. Keys are ranks in the map's order; a key may have      *)
(* several representations (NaNs, the zeros, keys equivalent under a less   *)
(* function), of which the map keeps the one given at the insertion.        *)
(* The meaning of the calls is MapOps!Effect, the one of the concurrent map.*)
(*                                                                         *)
(* The file named by TRACES holds a prefix-sharing forest as for TraceMon;  *)
(* events are <<map, kind, k, rep, v, ok, result, runs, visits...>>, visits *)
(* being triples k, rep, v; kind 9: the call failed or hung.                *)
(***************************************************************************)
EXTENDS MapOps, TLC, Json, IOUtils

Nodes == ndJsonDeserialize(IOEnv.TRACES)
NRoots == Nodes[1].roots

KindNames == <<"store", "load", "del", "lad", "los", "lazy", "range", "len">>

VARIABLES nd,   \* node of the forest
          m,    \* m[i][k]: value of key k in map i, 0: absent
          rep,  \* rep[i][k]: representation kept for key k
          ok    \* the history so far is one of a sorted map
vars == <<nd, m, rep, ok>>

Init ==
  \E r \in 2..(NRoots + 1) :
    /\ nd = r
    /\ m = [i \in 0..1 |-> [k \in 1..Nodes[r].nk |-> 0]]
    /\ rep = [i \in 0..1 |-> [k \in 1..Nodes[r].nk |-> 0]]
    /\ ok = TRUE

(* The enumeration Range makes: all mappings in order, up to and including  *)
(* the stop-th if the callback stops there.                                 *)
Ordered(f) == SelectSeq([k \in 1..Len(f) |-> k], LAMBDA k : f[k] # 0)
Enumeration(f, stop) ==
  LET o == Ordered(f)
  IN IF stop > 0 /\ stop < Len(o) THEN SubSeq(o, 1, stop) ELSE o

Point(i, kind, k, r, v, res, val, runs) ==
  LET e == Effect(kind, v, m[i][k])
  IN /\ ok' = (/\ res = (IF e.ok THEN 1 ELSE 0)
               /\ val = e.v
               /\ runs = (IF kind = "lazy" /\ m[i][k] = 0 THEN 1 ELSE 0))
     /\ m' = IF e.new = m[i][k] THEN m ELSE [m EXCEPT ![i][k] = e.new]
     /\ rep' = IF m[i][k] = 0 /\ e.new # 0 THEN [rep EXCEPT ![i][k] = r] ELSE rep

Whole(i, kind, stop, val, ev) ==
  /\ UNCHANGED <<m, rep>>
  /\ IF kind = "len" THEN ok' = (val = Cardinality(Present(m[i])))
     ELSE LET want == Enumeration(m[i], stop)
          IN ok' = (/\ Len(ev) = 8 + 3 * Len(want)
                    /\ \A j \in 1..Len(want) :
                         /\ ev[6 + 3 * j] = want[j]
                         /\ ev[7 + 3 * j] = rep[i][want[j]]
                         /\ ev[8 + 3 * j] = m[i][want[j]])

Next ==
  /\ ok
  /\ \E x \in 1..Len(Nodes[nd].ch) :
       LET c == Nodes[nd].ch[x]
           ev == Nodes[c].ev
       IN /\ nd' = c
          /\ IF ev[2] = 9 THEN ok' = FALSE /\ UNCHANGED <<m, rep>>
             ELSE IF ev[2] >= 7 THEN Whole(ev[1], KindNames[ev[2]], ev[5], ev[7], ev)
             ELSE Point(ev[1], KindNames[ev[2]], ev[3], ev[4], ev[5], ev[6], ev[7], ev[8])

Spec == Init /\ [][Next]_vars

View == nd
Report == ok \/ PrintT(<<"REJECTED", nd>>)
=============================================================================
