------------------------------ MODULE TraceMon ------------------------------
(***************************************************************************)
(* Validates histories recorded from the real code against the abstract    *)
(* map. The file named by the environment variable TRACES holds a forest of *)
(* histories, one node per line: a root is [id, nk, m0, ch] with nk keys    *)
(* (ranks 1..nk) and initial values m0; any other node is [id, ev, ch] with *)
(* an observable event <<code, o, kind, k, v, ok, w>>. ch lists the lines   *)
(* of the nodes that continue the history, so histories share prefixes.     *)
(* TLC visits every node; a node is rejected when no configuration of the   *)
(* abstract map explains the history up to and including its event.         *)
(***************************************************************************)
EXTENDS MapOps, TLC, TLCExt, Json, IOUtils

Nodes == ndJsonDeserialize(IOEnv.TRACES)
NRoots == Nodes[1].roots      \* lines 2..NRoots+1 are the roots

Codes == <<"c", "r", "v", "f", "g", "a", "q", "s", "x", "n", "L", "K">>
KindNames == <<"store", "load", "del", "lad", "los", "lazy", "range", "len">>
Decode(r) == [e |-> Codes[r[1]], o |-> r[2], kind |-> IF r[3] = 0 THEN "" ELSE KindNames[r[3]],
              k |-> r[4], v |-> r[5], ok |-> r[6] = 1, w |-> r[7] = 1]

VARIABLES nd, S, info
vars == <<nd, S, info>>

Init ==
  \E r \in 2..(NRoots + 1) :
    /\ nd = r
    /\ S = {InitConfig([k \in 1..Nodes[r].nk |-> Nodes[r].m0[k]])}
    /\ info = [x \in {} |-> {}]

Next ==
  /\ S # {}
  /\ \E i \in 1..Len(Nodes[nd].ch) :
       LET c == Nodes[nd].ch[i]
           e == Decode(Nodes[c].ev)
       IN /\ nd' = c
          /\ S' = MonStep(S, info, e)
          /\ info' = IF S' = {} THEN info ELSE InfoAfter(info, e)

Spec == Init /\ [][Next]_vars

\* one state per node: S and info are functions of it
View == nd

\* Reports instead of stopping, so that every history of the file is judged.
Report == S # {} \/ PrintT(<<"REJECTED", nd>>)
=============================================================================
