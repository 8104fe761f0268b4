------------------------------- MODULE MapOps -------------------------------
(***************************************************************************)
(* The abstract concurrent map, as operators on configurations.            *)
(*                                                                         *)
(* A configuration c is what the abstract map knows at one instant:        *)
(*   c.m : key -> value, 0 meaning absent (values stored are positive);    *)
(*   c.p : id of a pending call -> what has happened to that call so far:  *)
(*         lin  it has taken effect                                        *)
(*         ok,v the results it will return                                 *)
(*         eff  +1 it inserted a mapping, -1 it removed one, 0 neither      *)
(*         seen Range only: per key the mappings held since it was called  *)
(*         ls   Len only: the numbers it may report                        *)
(* What an observer knows about the pending calls is kept apart, in info:  *)
(*   kind, k, v   operation, key, value offered                            *)
(*   last, stop   Range: last key visited, callback asked to stop          *)
(*   f            callback: 0 not run, 1 running (lazy), 2 returned (lazy),*)
(*                3 it panicked                                            *)
(*                                                                         *)
(* Keys are ranks in the map's order, so the order is < for every map type.*)
(* The operators below are the transitions; SkipMapAbs turns them into a   *)
(* specification and an acceptor of observed histories (MonStep).       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

InsKinds   == {"store", "los", "lazy"}
RemKinds   == {"del", "lad"}
PointKinds == InsKinds \cup RemKinds \cup {"load"}
Kinds      == PointKinds \cup {"range", "len"}

NoSeen == [x \in {} |-> {}]

InitInfo(kind, k, v) ==
  [kind |-> kind, k |-> k, v |-> v, last |-> 0, stop |-> FALSE, f |-> 0]

Present(m) == {k \in DOMAIN m : m[k] # 0}

(* Sequential meaning of a point operation on a key whose value is cur:    *)
(* new value, ok/loaded/deleted flag, returned value.                       *)
Effect(kind, v, cur) ==
  CASE kind = "store" -> [new |-> v, ok |-> TRUE, v |-> 0]
    [] kind = "load"  -> [new |-> cur, ok |-> cur # 0, v |-> cur]
    [] kind = "del"   -> [new |-> 0, ok |-> cur # 0, v |-> 0]
    [] kind = "lad"   -> [new |-> 0, ok |-> cur # 0, v |-> cur]
    [] kind \in {"los", "lazy"} ->
         IF cur # 0 THEN [new |-> cur, ok |-> TRUE, v |-> cur]
                    ELSE [new |-> v, ok |-> FALSE, v |-> v]

(* The numbers Len may report at this instant: the number of mappings, give *)
(* or take the insertions and removals that are still running.              *)
LenSet(m, p, info) ==
  LET n      == Cardinality(Present(m))
      linIns == Cardinality({i \in DOMAIN p : p[i].lin /\ p[i].eff = 1})
      linRem == Cardinality({i \in DOMAIN p : p[i].lin /\ p[i].eff = -1})
      unIns  == Cardinality({i \in DOMAIN p : ~p[i].lin /\ info[i].kind \in InsKinds})
      unRem  == Cardinality({i \in DOMAIN p : ~p[i].lin /\ info[i].kind \in RemKinds})
  IN {x \in (n - linIns - unRem) .. (n + linRem + unIns) : x >= 0}

(* Pending Range and Len calls observe the current instant.                 *)
Refresh(c, info) ==
  IF \A i \in DOMAIN c.p : info[i].kind \in PointKinds THEN c
  ELSE [c EXCEPT !.p = [i \in DOMAIN c.p |->
         CASE info[i].kind = "range" ->
                [c.p[i] EXCEPT !.seen = [k \in DOMAIN c.m |-> @[k] \cup {c.m[k]}]]
           [] info[i].kind = "len" ->
                [c.p[i] EXCEPT !.ls = @ \cup LenSet(c.m, c.p, info)]
           [] OTHER -> c.p[i]]]

InitConfig(m) == [m |-> m, p |-> [x \in {} |-> {}]]

NewPending(m, kind) ==
  [lin |-> FALSE, ok |-> FALSE, v |-> 0, eff |-> 0,
   seen |-> IF kind = "range" THEN [k \in DOMAIN m |-> {}] ELSE NoSeen,
   ls |-> {}]

Extend(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Drop(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]

(* ------------------------- internal transition ------------------------- *)

(* A pending point operation may take effect now. A lazy insertion takes    *)
(* effect only after its function returned, a lazy load only if it never    *)
(* ran, and no key becomes present between a function's run for it and the   *)
(* insertion of that function's value.                                      *)
Reserved(c, info, j, k) ==      \* call j ran its function for k and has not inserted yet
  info[j].k = k /\ info[j].f # 0 /\ ~c.p[j].lin

CanLin(c, info, i) ==
  /\ info[i].kind \in PointKinds
  /\ ~c.p[i].lin
  /\ info[i].kind = "lazy" =>
       IF c.m[info[i].k] # 0 THEN info[i].f = 0 ELSE info[i].f = 2
  /\ (info[i].kind \in InsKinds /\ c.m[info[i].k] = 0) =>
       \A j \in DOMAIN c.p : j # i => ~Reserved(c, info, j, info[i].k)

DoLin(c, info, i) ==
  LET k == info[i].k
      e == Effect(info[i].kind, info[i].v, c.m[k])
      d == IF c.m[k] = 0 /\ e.new # 0 THEN 1 ELSE IF c.m[k] # 0 /\ e.new = 0 THEN -1 ELSE 0
  IN Refresh([m |-> [c.m EXCEPT ![k] = e.new],
              p |-> [c.p EXCEPT ![i] = [@ EXCEPT !.lin = TRUE, !.ok = e.ok, !.v = e.v, !.eff = d]]],
             info)

LinSuccs(c, info) == {DoLin(c, info, i) : i \in {j \in DOMAIN c.p : CanLin(c, info, j)}}

(* ------------------------ observable transitions ------------------------ *)
(* Each returns the set of configurations after the event: {} if the event  *)
(* cannot happen in c. Events:                                              *)
(*   "c" call      o kind k v        "r" return   o ok v (w: result unseen) *)
(*   "v" visit     o k v ok(=stop)   "f" lazy function starts, "g" returns v*)
(*   "q" the callback panics          "a" the call ends with that panic      *)
(*   "s" the call can never finish    "x" the call fails with a run-time      *)
(*                                        error: no map does either           *)
(*   "n" the call took v steps of its own (calls that must not wait)          *)
(*   "L" no call is running and the value v is still alive                    *)
(*   "K" no call is running and v instances of the key k are still alive      *)

InfoAfter(info, e) ==
  CASE e.e = "c" -> Extend(info, e.o, InitInfo(e.kind, e.k, e.v))
    [] e.e = "r" -> Drop(info, e.o)
    [] e.e = "a" -> Drop(info, e.o)
    [] e.e = "v" -> [info EXCEPT ![e.o].last = e.k, ![e.o].stop = e.ok]
    [] e.e = "f" -> [info EXCEPT ![e.o].f = 1]
    [] e.e = "g" -> [info EXCEPT ![e.o].f = 2, ![e.o].v = e.v]
    [] e.e = "q" -> [info EXCEPT ![e.o].f = 3]
    [] OTHER -> info

(* A reader's own steps are bounded by the number of keys it can meet: it    *)
(* follows strictly increasing keys and never starts over. The bound leaves  *)
(* room for any number of flag and value reads per key and level.            *)
StepBound(nk) == 12 * (nk + 18)

(* events that no configuration can accept, whatever happened inside       *)
WellFormed(info, e) ==
  CASE e.e = "c" -> e.o \notin DOMAIN info /\ e.kind \in Kinds
    [] e.e = "r" -> /\ e.o \in DOMAIN info
                    /\ info[e.o].f \notin {1, 3}
    [] e.e = "q" -> /\ e.o \in DOMAIN info /\ info[e.o].kind \in {"range", "lazy"}
                    /\ info[e.o].kind = "lazy" => info[e.o].f = 1
    [] e.e = "a" -> e.o \in DOMAIN info /\ info[e.o].f = 3
    [] e.e = "n" -> e.o \in DOMAIN info
    [] e.e \in {"L", "K"} -> DOMAIN info = {}
    [] e.e = "v" -> /\ e.o \in DOMAIN info /\ info[e.o].kind = "range"
                    /\ ~info[e.o].stop /\ info[e.o].f = 0
                    /\ e.k > info[e.o].last          \* sorted, no duplicates
    [] e.e = "f" -> e.o \in DOMAIN info /\ info[e.o].kind = "lazy" /\ info[e.o].f = 0
    [] e.e = "g" -> e.o \in DOMAIN info /\ info[e.o].f = 1
    [] OTHER -> FALSE

After(c, info, e) ==
  LET info2 == InfoAfter(info, e)
      ok ==
        CASE e.e = "c" -> TRUE
          [] e.e = "r" ->
               CASE info[e.o].kind = "range" ->
                      info[e.o].stop \/ e.w \/
                      \A k \in DOMAIN c.m : k > info[e.o].last => 0 \in c.p[e.o].seen[k]
                 [] info[e.o].kind = "len" -> e.w \/ e.v \in c.p[e.o].ls
                 [] OTHER -> c.p[e.o].lin /\ (e.w \/ (c.p[e.o].ok = e.ok /\ c.p[e.o].v = e.v))
          [] e.e = "a" -> ~c.p[e.o].lin              \* an aborted call changed nothing
          [] e.e = "v" ->
               /\ e.k \in DOMAIN c.m
               /\ (e.v # 0 /\ e.v \in c.p[e.o].seen[e.k])
               /\ \A k \in DOMAIN c.m : (info[e.o].last < k /\ k < e.k) => 0 \in c.p[e.o].seen[k]
          [] e.e = "f" -> ~c.p[e.o].lin /\ c.m[info[e.o].k] = 0 /\
               \A j \in DOMAIN c.p : j # e.o => ~Reserved(c, info, j, info[e.o].k)
          [] e.e = "n" -> e.v <= StepBound(Cardinality(DOMAIN c.m))
          [] e.e = "L" -> \E k \in DOMAIN c.m : c.m[k] = e.v /\ e.v # 0
          [] e.e = "K" -> e.v <= (IF c.m[e.k] # 0 THEN 1 ELSE 0)
          [] OTHER -> TRUE
      c2 == CASE e.e = "c" -> [c EXCEPT !.p = Extend(c.p, e.o, NewPending(c.m, e.kind))]
              [] e.e \in {"r", "a"} -> [c EXCEPT !.p = Drop(c.p, e.o)]
              [] OTHER -> c
  IN IF ok THEN {Refresh(c2, info2)} ELSE {}

(* ----------------- all configurations reachable inside ------------------ *)
RECURSIVE Closure(_, _)
Closure(S, info) ==
  LET new == (UNION {LinSuccs(c, info) : c \in S}) \ S
  IN IF new = {} THEN S ELSE Closure(S \cup new, info)

(* The acceptor's step: S is the set of configurations the abstract map     *)
(* may be in after the events so far.                                       *)
MonStep(S, info, e) ==
  IF ~WellFormed(info, e) THEN {}
  ELSE UNION {After(c, info, e) : c \in (IF e.e \in {"c", "g", "q", "n"} THEN S ELSE Closure(S, info))}
=============================================================================
