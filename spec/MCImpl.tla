------------------------------- MODULE MCImpl -------------------------------
(* Scenario families for SkipMapImpl: every combination of initial contents *)
(* (keys, tower heights) and of operations and drawn heights.               *)
EXTENDS SkipMapImpl

CONSTANTS Shape,     \* programs: number of calls of each thread, e.g. <<1, 1>>
          OpKinds,   \* thread -> kinds it may call
          OpKeys,    \* keys used by the calls
          Lvls,      \* heights drawn
          InitKeys   \* keys that may be present at first

Subsets == SUBSET InitKeys
RECURSIVE Inits(_)
Inits(ks) ==      \* all sequences of initial nodes for the keys ks, ascending
  IF ks = {} THEN {<<>>}
  ELSE LET k == CHOOSE a \in ks : \A b \in ks : a >= b
       IN {Append(r, [k |-> k, lvl |-> l, v |-> 90 + k]) : r \in Inits(ks \ {k}), l \in Lvls}
AllInits == UNION {Inits(ks) : ks \in Subsets}

OpsOf(t, i) ==
  LET v == 10 * t + i
      mk(kind, k, l) == [kind |-> kind, k |-> k, v |-> IF kind \in InsKinds THEN v ELSE 0, lvl |-> l, stop |-> 0]
  IN UNION {
       CASE kind \in InsKinds -> {mk(kind, k, l) : k \in OpKeys, l \in Lvls}
         [] kind = "lazyp" -> {[mk("lazy", k, l) EXCEPT !.stop = 1] : k \in OpKeys, l \in Lvls}
         [] kind = "rangestop" -> {[mk("range", 1, 1) EXCEPT !.stop = 1]}
         [] kind \in {"range", "len"} -> {mk(kind, 1, 1)}
         [] OTHER -> {mk(kind, k, 1) : k \in OpKeys} : kind \in OpKinds[t]}

RECURSIVE Seqs(_, _)
Seqs(t, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, o) : s \in Seqs(t, n - 1), o \in OpsOf(t, n)}

Progs == CASE Len(Shape) = 1 -> {<<a>> : a \in Seqs(1, Shape[1])}
           [] Len(Shape) = 2 -> {<<a, b>> : a \in Seqs(1, Shape[1]), b \in Seqs(2, Shape[2])}
           [] Len(Shape) = 3 -> {<<a, b, c>> : a \in Seqs(1, Shape[1]), b \in Seqs(2, Shape[2]), c \in Seqs(3, Shape[3])}

AllScenarios == {[init |-> i, prog |-> p] : i \in AllInits, p \in Progs}

\* A random sample (of TLC's -seed) of a family too large to enumerate.
CONSTANT SampleSize
SampledScenarios ==
  {[init |-> RandomElement(AllInits), prog |-> [t \in 1..Len(Shape) |-> [i \in 1..Shape[t] |-> RandomElement(OpsOf(t, i))]], n |-> n] :
     n \in 1..SampleSize}

\* Thread 1 makes calls on key 2 that change nothing, the others use the other keys.
Passive == 2
PassiveScenarios ==
  {s \in AllScenarios :
     LET there == \E i \in 1..Len(s.init) : s.init[i].k = Passive
     IN /\ \A i \in 1..Len(s.prog[1]) :
             /\ s.prog[1][i].k = Passive
             /\ s.prog[1][i].kind \in InsKinds => there
             /\ s.prog[1][i].kind \in RemKinds => ~there
        /\ \A t \in 2..Len(s.prog) : \A i \in 1..Len(s.prog[t]) : s.prog[t][i].k # Passive}
\* Thread 1 updates keys on one side of a key with the tallest tower that stays,
\* the others update keys on the other side of it.
Wall == 3
FarScenarios ==
  {s \in AllScenarios :
     /\ \E i \in 1..Len(s.init) : s.init[i].k = Wall /\ s.init[i].lvl = MaxLevel
     /\ \E low \in BOOLEAN : \A t \in 1..Len(s.prog) : \A i \in 1..Len(s.prog[t]) :
          IF low = (t = 1) THEN s.prog[t][i].k < Wall ELSE s.prog[t][i].k > Wall}
PassiveCompletes == <>(th[1].pc = "done")

All == {"store", "load", "del", "lad", "los", "lazy", "range", "len"}
AllAll == [t \in 1..3 |-> All]
Readers == {"load", "range", "len"}
Few == {"store", "los", "del"}
AllFewFew == <<All, Few, Few>>
Updaters == {"store", "los", "lazy", "del", "lad"}
FewAll == <<Few, All>>
ReaderFew == <<Readers, Few>>
FarKinds == <<Updaters, Updaters>>
PassiveFew == <<Updaters \cup {"load"}, {"store", "del"}>>
CheckerUpd == <<{"load", "range", "del"}, Updaters>>
OwnIns == <<{"store", "los", "load"}, {"store", "los"}>>
InsIns == <<InsKinds, InsKinds, InsKinds>>
WithPanic == <<{"lazyp"}, All \cup {"lazyp"}>>
Stopped == <<{"rangestop"}, Updaters>>
OneKeyRemovers == <<{"del", "lad"}, {"del", "lad"}, {"store", "los", "load"}>>
OneKeyInsDel == <<{"store", "los"}, {"los", "lazy"}, {"del", "lad"}>>
ReaderRemIns == <<{"load", "range", "len"}, {"del", "lad"}, {"store", "los"}>>
RemRemIns == <<{"del"}, {"lad"}, {"store", "los"}>>
S11 == <<1, 1>>
S21 == <<2, 1>>
S12 == <<1, 2>>
S22 == <<2, 2>>
S211 == <<2, 1, 1>>
S222 == <<2, 2, 2>>
S111 == <<1, 1, 1>>
=============================================================================
