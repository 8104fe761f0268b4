------------------------------- MODULE CostMon -------------------------------
(***************************************************************************)
(* The cost of calls (C17). The abstract state is the number n of keys; a   *)
(* batch of calls on the map takes steps on shared memory (or comparisons).  *)
(* Their mean c(n) is O(log n) whatever the order in which the keys came:    *)
(* with unit the largest c(n) / log2 n for n up to Small,                   *)
(*    c(n) <= Growth * unit * log2 n + Slack  for larger n, and always       *)
(*    c(n) <= PerLevel * log2 n + Base.                                     *)
(* A Range takes at most PerKey steps for a key. The heights of the towers   *)
(* are drawn by the code's own generator from random bits, so means over     *)
(* hundreds of calls stand for expectations.                                *)
(*                                                                         *)
(* The file named by TRACES holds a forest as for TraceMon; events are       *)
(* <<kind, calls, steps, ...>>: kind 1 inserts keys, 9 removes keys, 8: the  *)
(* code failed, 10: a Range (calls: keys), others leave the keys as they     *)
(* are; kind + 20: the comparisons made by the same calls.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS PerLevel, Base,      \* steps
          Growth, Slack,       \* tenths; steps
          PerKey, Small

Nodes == ndJsonDeserialize(IOEnv.TRACES)
NRoots == Nodes[1].roots

VARIABLES nd, n, unit, ok      \* unit: by kind, hundredths of steps
vars == <<nd, n, unit, ok>>

RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2((x + 1) \div 2)     \* rounded up

Max(a, b) == IF a > b THEN a ELSE b
\* the mean in tenths, without large products
Mean(steps, calls) == (steps \div calls) * 10 + ((steps % calls) * 10) \div calls

Init ==
  \E r \in 2..(NRoots + 1) : nd = r /\ n = 0 /\ unit = [k \in 1..30 |-> 0] /\ ok = TRUE

After(kind, calls) ==
  CASE kind = 1 -> n + calls
    [] kind = 9 -> n - calls
    [] OTHER -> n

\* the most keys there were during the batch
During(kind, calls) ==
  Max(2, CASE kind = 1 -> n + calls
           [] kind = 29 -> n + calls
           [] OTHER -> n)

Within(kind, calls, steps) ==
  LET m == During(kind, calls)
      t == Mean(steps, calls)
  IN IF kind = 10 THEN t <= 10 * PerKey
     ELSE /\ t <= 10 * (PerLevel * Log2(m) + Base)
          /\ m > Small => 100 * t <= Growth * unit[kind] * Log2(m) + 1000 * Slack

Unit(kind, calls, steps) ==
  LET m == During(kind, calls)
  IN IF m > Small THEN unit
     ELSE [unit EXCEPT ![kind] = Max(@, (10 * Mean(steps, calls)) \div Log2(m))]

Next ==
  /\ ok
  /\ \E i \in 1..Len(Nodes[nd].ch) :
       LET c == Nodes[nd].ch[i]
           e == Nodes[c].ev
           n2 == After(e[1], e[2])
       IN /\ nd' = c
          /\ n' = n2
          /\ unit' = IF e[1] = 8 THEN unit ELSE Unit(e[1], e[2], e[3])
          /\ ok' = (e[1] # 8 /\ n2 >= 0 /\ Within(e[1], e[2], e[3]))

Spec == Init /\ [][Next]_vars
View == nd
Report == ok \/ PrintT(<<"REJECTED", nd>>)
=============================================================================
