------------------------------- MODULE RaceMon -------------------------------
(***************************************************************************)
(* Data races (C16), after the Go memory model. The state is a vector clock  *)
(* per goroutine, one per place that synchronizes (what its last write, or   *)
(* the holders of a lock so far, knew), and for every place and goroutine    *)
(* the time of its last access of each class. An access races with an       *)
(* earlier one of another goroutine that conflicts with it, if not both are  *)
(* atomic and its goroutine does not know of the earlier one.                *)
(*                                                                         *)
(* The file named by TRACES holds a forest as for TraceMon; a root carries   *)
(* an upper bound nk on the places and m0[1] on the goroutines; events are   *)
(* <<kind, goroutine, place, ...>>. All that happened before the goroutines  *)
(* started is known to them.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

READ    == 1     \* plain accesses
WRITE   == 2
LOAD    == 3     \* atomic ones; a failed compare-and-swap is a LOAD
STORE   == 4
RMW     == 5
ACQUIRE == 6     \* a lock is taken, a thing comes out of a pool
RELEASE == 7     \* a lock is given back, a thing goes into a pool
SPAWN   == 8     \* the place is the new goroutine

Nodes == ndJsonDeserialize(IOEnv.TRACES)
NRoots == Nodes[1].roots

VARIABLES nd,      \* the line reached
          clock,   \* goroutine -> what it knows: goroutine -> time
          sync,    \* place -> what who reads it there learns
          seen,    \* place -> class of access -> goroutine -> time of the last
          ok
vars == <<nd, clock, sync, seen, ok>>

Threads == DOMAIN clock
Zero == [t \in Threads |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in DOMAIN a |-> Max(a[t], b[t])]
Tick(c, t) == [c EXCEPT ![t][t] = @ + 1]

\* classes of accesses: plain reads and writes, atomic reads and writes
Class(kind) == IF kind = RMW THEN STORE ELSE kind
Against(kind) ==
  CASE kind = READ  -> {WRITE, STORE}
    [] kind = WRITE -> {READ, WRITE, LOAD, STORE}
    [] kind = LOAD  -> {WRITE}
    [] kind \in {STORE, RMW} -> {READ, WRITE}
    [] OTHER -> {}

Races(kind, t, p) ==
  \E a \in Against(kind) : \E u \in Threads \ {t} : seen[p][a][u] > clock[t][u]

Init ==
  \E r \in 2..(NRoots + 1) :
    LET T == 1..Nodes[r].m0[1]
        Z == [t \in T |-> 0]
    IN /\ nd = r
       /\ clock = [t \in T |-> [u \in T |-> IF u = t THEN 1 ELSE 0]]
       /\ sync = [p \in 1..Nodes[r].nk |-> Z]
       /\ seen = [p \in 1..Nodes[r].nk |-> [a \in READ..STORE |-> Z]]
       /\ ok = TRUE

Clocks(kind, t, p) ==
  CASE kind \in {LOAD, ACQUIRE} -> [clock EXCEPT ![t] = Join(@, sync[p])]
    [] kind \in {STORE, RELEASE} -> Tick(clock, t)
    [] kind = RMW -> Tick([clock EXCEPT ![t] = Join(@, sync[p])], t)
    [] kind = SPAWN -> Tick([clock EXCEPT ![p] = Join(@, clock[t])], t)
    [] OTHER -> clock

Syncs(kind, t, p) ==
  CASE kind = STORE -> [sync EXCEPT ![p] = clock[t]]
    [] kind = RMW -> [sync EXCEPT ![p] = Join(@, clock[t])]
    [] kind = RELEASE -> [sync EXCEPT ![p] = Join(@, clock[t])]
    [] OTHER -> sync

Next ==
  /\ ok
  /\ \E i \in 1..Len(Nodes[nd].ch) :
       LET c == Nodes[nd].ch[i]
           e == Nodes[c].ev
           kind == e[1]
           t == e[2]
           p == e[3]
       IN /\ nd' = c
          /\ clock' = Clocks(kind, t, p)
          /\ sync' = Syncs(kind, t, p)
          /\ seen' = IF kind \in READ..RMW
                     THEN [seen EXCEPT ![p][Class(kind)][t] = clock[t][t]]
                     ELSE seen
          /\ ok' = ~Races(kind, t, p)

Spec == Init /\ [][Next]_vars
View == nd
Report == ok \/ PrintT(<<"REJECTED", nd>>)
=============================================================================
