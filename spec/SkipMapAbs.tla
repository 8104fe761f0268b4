----------------------------- MODULE SkipMapAbs -----------------------------
(***************************************************************************)
(* The abstract concurrent sorted map: what a user of skipmap relies on.   *)
(* Calls are made and return; in between each point operation takes effect *)
(* at one instant (Take); Range observes every key at some instant of its  *)
(* own; a lazy function runs exactly when its call inserts.                *)
(* obs is the set of configurations an observer of the events considers    *)
(* possible (the acceptor used on real traces): Observable says it always  *)
(* contains the true one.                                                  *)
(***************************************************************************)
EXTENDS MapOps, TLC

CONSTANTS NKeys, Ids, MaxCalls, KindsUsed

Keys == 1..NKeys

VARIABLES c,      \* the configuration
          info,   \* pending calls
          n,      \* calls made so far
          obs,    \* observer: possible configurations
          ins,    \* per key: insertions reported (los/lazy loaded=false, store into absent)
          rem     \* per key: successful removals reported
vars == <<c, info, n, obs, ins, rem>>

Empty == [x \in {} |-> {}]

Init ==
  /\ c = InitConfig([k \in Keys |-> 0])
  /\ info = Empty
  /\ n = 0
  /\ obs = {c}
  /\ ins = [k \in Keys |-> 0]
  /\ rem = [k \in Keys |-> 0]

Event(e) ==
  /\ WellFormed(info, e)
  /\ After(c, info, e) # {}
  /\ c' \in After(c, info, e)
  /\ info' = InfoAfter(info, e)
  /\ obs' = MonStep(obs, info, e)

Call(o, kind, k) ==
  /\ n < MaxCalls
  /\ o \notin DOMAIN info
  /\ Event([e |-> "c", o |-> o, kind |-> kind, k |-> k, v |-> n + 1, ok |-> FALSE, w |-> FALSE])
  /\ n' = n + 1
  /\ UNCHANGED <<ins, rem>>

Take(o) ==
  /\ o \in DOMAIN c.p
  /\ CanLin(c, info, o)
  /\ c' = DoLin(c, info, o)
  /\ UNCHANGED <<info, n, obs, ins, rem>>

ReturnPoint(o) ==
  /\ o \in DOMAIN c.p
  /\ info[o].kind \in PointKinds
  /\ Event([e |-> "r", o |-> o, kind |-> "", k |-> 0, v |-> c.p[o].v, ok |-> c.p[o].ok, w |-> FALSE])
  /\ ins' = IF c.p[o].eff = 1 THEN [ins EXCEPT ![info[o].k] = @ + 1] ELSE ins
  /\ rem' = IF c.p[o].eff = -1 THEN [rem EXCEPT ![info[o].k] = @ + 1] ELSE rem
  /\ UNCHANGED n

ReturnLen(o) ==
  /\ o \in DOMAIN c.p
  /\ info[o].kind = "len"
  /\ \E x \in c.p[o].ls :
       Event([e |-> "r", o |-> o, kind |-> "", k |-> 0, v |-> x, ok |-> TRUE, w |-> FALSE])
  /\ UNCHANGED <<n, ins, rem>>

Visit(o, k, stop) ==
  /\ o \in DOMAIN c.p
  /\ info[o].kind = "range"
  /\ \E v \in c.p[o].seen[k] :
       Event([e |-> "v", o |-> o, kind |-> "", k |-> k, v |-> v, ok |-> stop, w |-> FALSE])
  /\ UNCHANGED <<n, ins, rem>>

ReturnRange(o) ==
  /\ o \in DOMAIN c.p
  /\ info[o].kind = "range"
  /\ Event([e |-> "r", o |-> o, kind |-> "", k |-> 0, v |-> 0, ok |-> TRUE, w |-> FALSE])
  /\ UNCHANGED <<n, ins, rem>>

FuncStart(o) ==
  /\ Event([e |-> "f", o |-> o, kind |-> "", k |-> 0, v |-> 0, ok |-> TRUE, w |-> FALSE])
  /\ UNCHANGED <<n, ins, rem>>

FuncEnd(o) ==
  /\ o \in DOMAIN info
  /\ Event([e |-> "g", o |-> o, kind |-> "", k |-> 0, v |-> info[o].v, ok |-> TRUE, w |-> FALSE])
  /\ UNCHANGED <<n, ins, rem>>

\* the callback panics: only while it runs (lazy) or any time (Range)
Raise(o) ==
  /\ o \in DOMAIN info
  /\ info[o].f # 3
  /\ Event([e |-> "q", o |-> o, kind |-> "", k |-> 0, v |-> 0, ok |-> FALSE, w |-> FALSE])
  /\ UNCHANGED <<n, ins, rem>>
Abort(o) ==
  /\ o \in DOMAIN info
  /\ Event([e |-> "a", o |-> o, kind |-> "", k |-> 0, v |-> 0, ok |-> FALSE, w |-> FALSE])
  /\ UNCHANGED <<n, ins, rem>>

Next ==
  \E o \in Ids :
    \/ \E kind \in KindsUsed, k \in Keys : (kind \in {"range", "len"} => k = 1) /\ Call(o, kind, k)
    \/ Take(o)
    \/ ReturnPoint(o) \/ ReturnLen(o) \/ ReturnRange(o)
    \/ \E k \in Keys, stop \in BOOLEAN : Visit(o, k, stop)
    \/ FuncStart(o) \/ FuncEnd(o) \/ Raise(o) \/ Abort(o)

Spec == Init /\ [][Next]_vars

\* every call can complete: used for the liveness of the abstract map
FairSpec == Spec /\ \A o \in Ids :
   WF_vars(Take(o) \/ ReturnPoint(o) \/ ReturnLen(o) \/ ReturnRange(o)
           \/ (\E k \in Keys : Visit(o, k, FALSE)) \/ FuncStart(o) \/ FuncEnd(o) \/ Abort(o))

(* ------------------------------ properties ------------------------------ *)
\* The acceptor is complete: it knows a configuration that allows whatever c
\* allows. (It postpones effects past calls, so it may know larger sets of
\* observable mappings for a Range or Len called before the effect.)
Dominates(d, x) ==
  /\ d.m = x.m
  /\ DOMAIN d.p = DOMAIN x.p
  /\ \A o \in DOMAIN x.p :
       /\ [d.p[o] EXCEPT !.seen = NoSeen, !.ls = {}] = [x.p[o] EXCEPT !.seen = NoSeen, !.ls = {}]
       /\ x.p[o].ls \subseteq d.p[o].ls
       /\ info[o].kind = "range" => \A k \in Keys : x.p[o].seen[k] \subseteq d.p[o].seen[k]
Observable == \E d \in Closure(obs, info) : Dominates(d, c)

\* insertions and removals alternate: with nothing pending on k, the number of
\* reported insertions minus removals is 1 if the key is present, else 0 (C02, C03)
Conservation ==
  \A k \in Keys : (\A o \in DOMAIN info : info[o].k # k) =>
     ins[k] - rem[k] = (IF c.m[k] # 0 THEN 1 ELSE 0)

\* C04: a lazy call that will report loaded=false ran its function, and only that one
LazyDiscipline ==
  \A o \in DOMAIN info : (info[o].kind = "lazy" /\ c.p[o].lin) =>
     IF c.p[o].ok THEN info[o].f = 0 ELSE info[o].f = 2 /\ c.p[o].v = info[o].v

\* C06
LenSane == \A o \in DOMAIN info : info[o].kind = "len" =>
     \A x \in c.p[o].ls : x >= 0 /\ x <= NKeys + Cardinality(Ids)
LenExactWhenQuiet ==
  (\A o \in DOMAIN info : info[o].kind = "len") =>
     \A o \in DOMAIN info : Cardinality(Present(c.m)) \in c.p[o].ls

\* C05: what a Range may report for a key includes what the key maps to now
RangeSees == \A o \in DOMAIN info : info[o].kind = "range" =>
     \A k \in Keys : c.m[k] \in c.p[o].seen[k]

CallsComplete == \A o \in Ids : (o \in DOMAIN info) ~> (o \notin DOMAIN info)
=============================================================================
