----------------------------- MODULE SkipMapImpl -----------------------------
(***************************************************************************)
(* The algorithm of skipmap, one action per shared-memory step of the code *)
(* (an atomic load/store/CAS/add, a mutex operation), in program order.    *)
(* Local computation belongs to the step before it. `Kind` names the step  *)
(* the code performs at each program location; TraceImpl compares it with  *)
(* the steps recorded from the real code.                                  *)
(*                                                                         *)
(* Every call, return, Range visit and lazy-function run is passed to the  *)
(* acceptor of MapOps: S is the set of abstract configurations that explain*)
(* the run so far, and Linearizable is S # {}.                             *)
(*                                                                         *)
(* Mut is a set of named deviations from the algorithm ({} for the code).  *)
(* Each stands for a realistic mistake; TLC's counterexamples for them are *)
(* schedules replayed on the real code (directed tests).                   *)
(***************************************************************************)
EXTENDS MapOps, TLC

CONSTANTS
  MaxLevel,     \* levels of a full tower (16 in the code)
  DefaultHL,    \* initial highest level (3 in the code)
  MaxNodes,     \* heap size of the model, header included
  NKeys,
  Mut,
  Accept,       \* TRUE: S and info are the acceptor; FALSE: S is the log of the events
  Scenarios     \* set of [init: Seq([k, lvl, v]), prog: thread -> Seq(op)]

(* an op: [kind, k, v, lvl, stop]: lvl is the tower height drawn if the call *)
(* draws one; stop (Range) is the number of visits after which the callback *)
(* returns false (0: never); stop = 1 for a lazy call means that its       *)
(* function panics.                                                        *)

VARIABLES
  sc,     \* the scenario being run
  heap,   \* node id -> [key, val, fl, mk, lvl, lock, next]; node 1 is the header
  na,     \* number of allocated nodes
  hl,     \* highest level
  len,    \* length counter
  th,     \* thread -> local state
  S, info \* acceptor
vars == <<sc, heap, na, hl, len, th, S, info>>

Threads == DOMAIN sc.prog
M(x) == x \in Mut
Abs(v) == IF v < 0 THEN -v ELSE v      \* see TakeCas
Nil == 0
Header == 1
Levels == 1..MaxLevel
NoPath == [i \in Levels |-> Nil]

(* ------------------------------ operations ------------------------------ *)
Op(t) == sc.prog[t][th[t].ip]
OpId(t) == t * 100 + th[t].ip

FirstPc(kind) ==
  CASE kind = "store" -> "rl1"
    [] kind \in {"los", "lazy"} -> "h0"
    [] kind \in {"del", "lad"} -> "d0"
    [] kind = "load" -> "l0"
    [] kind = "range" -> "r0"
    [] kind = "len" -> "n0"

Locals(prog, ip) ==
  [pc |-> IF ip > Len(prog) THEN "done" ELSE FirstPc(prog[ip].kind),
   new |-> TRUE, ip |-> ip,
   x |-> Nil, i |-> 0, preds |-> NoPath, succs |-> NoPath,
   lf |-> 0, lay |-> 0, hlk |-> 0, pp |-> Nil, vic |-> Nil, mk |-> FALSE, top |-> 0,
   lvl |-> 0, h |-> 0, old |-> 0, nn |-> Nil, aft |-> "", vis |-> 0]

(* ------------------------------ acceptor -------------------------------- *)
CallEv(t) == IF th[t].new
             THEN <<[e |-> "c", o |-> OpId(t), kind |-> Op(t).kind, k |-> Op(t).k, v |-> Op(t).v]>>
             ELSE <<>>
RetEv(t, ok, v) == [e |-> "r", o |-> OpId(t), ok |-> ok, v |-> v, w |-> FALSE]
VisEv(t, k, v, stop) == [e |-> "v", o |-> OpId(t), k |-> k, v |-> v, ok |-> stop]
FEv(t) == [e |-> "f", o |-> OpId(t)]
AbortEv(t) == [e |-> "a", o |-> OpId(t)]
GEv(t) == [e |-> "g", o |-> OpId(t), v |-> Op(t).v]

RECURSIVE Fold(_, _, _)
Fold(s, inf, evs) ==
  IF evs = <<>> \/ s = {} THEN <<s, inf>>
  ELSE LET s2 == MonStep(s, inf, Head(evs))
       IN Fold(s2, IF s2 = {} THEN inf ELSE InfoAfter(inf, Head(evs)), Tail(evs))

\* thread t moves to local state T, emitting the call event (if this is its
\* first step) and the events evs
Move(t, T, evs) ==
  /\ th' = [th EXCEPT ![t] = T]
  /\ IF Accept
     THEN LET r == Fold(S, info, CallEv(t) \o evs) IN S' = r[1] /\ info' = r[2]
     ELSE S' = S \o CallEv(t) \o evs /\ UNCHANGED info
  /\ UNCHANGED sc

Goto(t, pc) == [th[t] EXCEPT !.pc = pc, !.new = FALSE]
Finish(t) == Locals(sc.prog[t], th[t].ip + 1)
Return(t, ok, v) == Move(t, Finish(t), <<RetEv(t, ok, v)>>)
At(t, pc) == th[t].pc = pc
Same == UNCHANGED <<heap, na, hl, len>>

(* --------------------------- initial contents ---------------------------- *)
NodeOf(init, n) == init[n - 1]
BuildNext(init, k, i) ==
  LET c == {n \in 2..(Len(init) + 1) : NodeOf(init, n).k > k /\ NodeOf(init, n).lvl >= i}
  IN IF c = {} THEN Nil ELSE CHOOSE n \in c : \A m \in c : NodeOf(init, n).k <= NodeOf(init, m).k
FreeNode == [key |-> 0, val |-> 0, fl |-> FALSE, mk |-> FALSE, lvl |-> 0, lock |-> Nil, next |-> NoPath]
BuildHeap(init) ==
  [n \in 1..MaxNodes |->
     IF n = Header
     THEN [FreeNode EXCEPT !.fl = TRUE, !.lvl = MaxLevel, !.next = [i \in Levels |-> BuildNext(init, 0, i)]]
     ELSE IF n <= Len(init) + 1
     THEN LET d == NodeOf(init, n) IN
          [key |-> d.k, val |-> d.v, fl |-> TRUE, mk |-> FALSE, lvl |-> d.lvl, lock |-> Nil,
           next |-> [i \in Levels |-> IF i <= d.lvl THEN BuildNext(init, d.k, i) ELSE Nil]]
     ELSE FreeNode]
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxLvl(_, _)
MaxLvl(init, m) == IF init = <<>> THEN m ELSE MaxLvl(Tail(init), Max(m, Head(init).lvl))

Init ==
  /\ sc \in Scenarios
  /\ heap = BuildHeap(sc.init)
  /\ na = Len(sc.init) + 1
  /\ hl = MaxLvl(sc.init, DefaultHL)
  /\ len = Len(sc.init)
  /\ th = [t \in DOMAIN sc.prog |-> Locals(sc.prog[t], 1)]
  /\ S = {InitConfig([k \in 1..NKeys |->
            IF \E j \in 1..Len(sc.init) : sc.init[j].k = k
            THEN sc.init[CHOOSE j \in 1..Len(sc.init) : sc.init[j].k = k].v ELSE 0])}
  /\ info = [x \in {} |-> {}]

(* ------------------- drawing a level, raising highestLevel --------------- *)
StartSearch(T) == [T EXCEPT !.pc = "f0", !.preds = NoPath, !.succs = NoPath, !.new = FALSE]
StartLocking(T) == [T EXCEPT !.pc = "lk", !.lay = 1, !.hlk = 0, !.pp = Nil, !.new = FALSE]
AfterLevel(t, T) ==
  IF Op(t).kind = "store" THEN StartSearch(T)
  ELSE IF T.lvl > T.h /\ ~M("los_noresearch") THEN StartSearch(T)   \* look again from the new top
  ELSE StartLocking(T)

LosReadTop(t) ==          \* LoadOrStore(Lazy): hl := highestLevel
  /\ At(t, "h0")
  /\ Move(t, [StartSearch(th[t]) EXCEPT !.h = hl], <<>>)
  /\ Same

LevelLoad(t) ==
  /\ At(t, "rl1")
  /\ LET T == [Goto(t, "rl2") EXCEPT !.lvl = Op(t).lvl, !.old = hl] IN
       IF Op(t).lvl <= hl THEN Move(t, AfterLevel(t, [T EXCEPT !.old = 0]), <<>>) ELSE Move(t, T, <<>>)
  /\ Same

LevelCas(t) ==
  /\ At(t, "rl2")
  /\ IF hl = th[t].old \/ M("rl_nocas")
     THEN hl' = th[t].lvl /\ Move(t, AfterLevel(t, [th[t] EXCEPT !.old = 0]), <<>>)
     ELSE hl' = hl /\ Move(t, Goto(t, "rl1"), <<>>)
  /\ UNCHANGED <<heap, na, len>>

(* ------------------------- search for insertion -------------------------- *)
FindTop(t) ==
  /\ At(t, "f0")
  /\ Move(t, [Goto(t, "f1") EXCEPT !.x = Header, !.i = hl], <<>>)
  /\ Same

NotFound(t, T) ==
  IF Op(t).kind # "store" /\ T.lvl = 0 THEN [T EXCEPT !.pc = "rl1"] ELSE StartLocking(T)

FindStep(t) ==
  /\ At(t, "f1")
  /\ LET T == Goto(t, "f1")
         s == heap[T.x].next[T.i]
         k == Op(t).k
         R == [T EXCEPT !.preds[T.i] = T.x, !.succs[T.i] = s]
     IN IF s # Nil /\ heap[s].key < k THEN Move(t, [T EXCEPT !.x = s], <<>>)
        ELSE IF s # Nil /\ heap[s].key = k
        THEN Move(t, [R EXCEPT !.pc = IF Op(t).kind # "store" THEN "g1"
                                      ELSE IF M("orig_store") THEN "s2" ELSE "s1",
                               !.vic = s, !.x = Nil, !.i = 0], <<>>)
        ELSE IF T.i = 1 THEN Move(t, NotFound(t, [R EXCEPT !.x = Nil, !.i = 0]), <<>>)
        ELSE Move(t, [R EXCEPT !.i = T.i - 1], <<>>)
  /\ Same

(* ----------------------- Store: the key was found ------------------------ *)
Visible(n) == heap[n].fl /\ ~heap[n].mk
Usable(n) == IF M("orig_fl") THEN ~heap[n].mk
             ELSE IF M("found_nomark") THEN heap[n].fl ELSE Visible(n)

StoreReadOld(t) ==
  /\ At(t, "s1")
  /\ Move(t, [Goto(t, "s2") EXCEPT !.old = heap[th[t].vic].val], <<>>)
  /\ Same

StoreCheck(t) ==
  /\ At(t, "s2")
  /\ IF Usable(th[t].vic) THEN Move(t, Goto(t, "s3"), <<>>)
     ELSE Move(t, [StartSearch(th[t]) EXCEPT !.vic = Nil, !.old = 0], <<>>)
  /\ Same

StoreCas(t) ==
  /\ At(t, "s3")
  /\ LET v == th[t].vic IN
     IF M("orig_store") \/ heap[v].val = th[t].old
     THEN heap' = [heap EXCEPT ![v].val = Op(t).v] /\ Return(t, TRUE, 0)
     ELSE heap' = heap /\ Move(t, [StartSearch(th[t]) EXCEPT !.vic = Nil, !.old = 0], <<>>)
  /\ UNCHANGED <<na, hl, len>>

(* ------------------- LoadOrStore(Lazy): the key was found ---------------- *)
LosCheck(t) ==
  /\ At(t, "g1")
  /\ IF Usable(th[t].vic) THEN Move(t, Goto(t, "g2"), <<>>)
     ELSE Move(t, [StartSearch(th[t]) EXCEPT !.vic = Nil], <<>>)
  /\ Same

LosReadValue(t) ==
  /\ At(t, "g2")
  /\ Return(t, TRUE, Abs(heap[th[t].vic].val))
  /\ Same

(* -------------------- lock and validate the predecessors ----------------- *)
IsRem(t) == Op(t).kind \in RemKinds
LastLay(t) == IF IsRem(t) THEN th[t].top ELSE th[t].lvl
Layer(T, j) == IF T.preds[j] = T.pp /\ T.pp # Nil THEN [T EXCEPT !.lay = j, !.pc = "v1"]
               ELSE [T EXCEPT !.lay = j, !.pc = "lk"]

LockPred(t) ==
  /\ At(t, "lk")
  /\ LET T == th[t]
         p == T.preds[T.lay]
     IN IF p = Nil THEN Move(t, Goto(t, "crash"), <<>>) /\ UNCHANGED heap
        ELSE /\ heap[p].lock = Nil
             /\ heap' = [heap EXCEPT ![p].lock = t]
             /\ Move(t, [Goto(t, "v1") EXCEPT !.pp = p, !.hlk = T.lay], <<>>)
  /\ UNCHANGED <<na, hl, len>>

Invalid(t) == [Goto(t, "u") EXCEPT !.lay = th[t].hlk, !.aft = IF IsRem(t) THEN "d0" ELSE "f0"]

Validated(t) ==           \* what follows when every layer is valid
  LET T == Goto(t, "")
  IN IF IsRem(t)
     THEN [T EXCEPT !.pc = "du", !.lay = IF M("unlink_up") THEN 1 ELSE T.top]
     ELSE IF Op(t).kind = "lazy" THEN [T EXCEPT !.pc = "fe"]
     ELSE [T EXCEPT !.pc = "nv"]
ValidatedEv(t) == IF ~IsRem(t) /\ Op(t).kind = "lazy" THEN <<FEv(t)>> ELSE <<>>

LayerOk(t) ==             \* move after the checks of this layer passed
  IF th[t].lay = LastLay(t) THEN Move(t, Validated(t), ValidatedEv(t))
  ELSE Move(t, Layer(Goto(t, ""), th[t].lay + 1), <<>>)

NextMatches(t) == heap[th[t].preds[th[t].lay]].next[th[t].lay] = th[t].succs[th[t].lay]

\* pred not marked (and, where the code reads it as part of the same step or
\* under the lock without an atomic step, pred.next = succ)
CheckPred(t) ==
  /\ At(t, "v1")
  /\ LET T == th[t]
         p == T.preds[T.lay]
         s == T.succs[T.lay]
         unm == ~heap[p].mk \/ M(IF IsRem(t) THEN "del_nopredmark" ELSE "ins_nopredmark")
     IN IF ~unm THEN Move(t, Invalid(t), <<>>)
        ELSE CASE Op(t).kind = "del" -> Move(t, Goto(t, "v2"), <<>>)
               [] Op(t).kind = "lad" ->
                    IF NextMatches(t) \/ M("del_nonext") THEN LayerOk(t) ELSE Move(t, Invalid(t), <<>>)
               [] Op(t).kind = "lazy" ->
                    IF ~(NextMatches(t) \/ M("ins_nonext")) THEN Move(t, Invalid(t), <<>>)
                    ELSE IF s = Nil THEN LayerOk(t) ELSE Move(t, Goto(t, "v2"), <<>>)
               [] OTHER ->
                    IF s # Nil THEN Move(t, Goto(t, "v2"), <<>>)
                    ELSE IF NextMatches(t) \/ M("ins_nonext") THEN LayerOk(t) ELSE Move(t, Invalid(t), <<>>)
  /\ Same

CheckSucc(t) ==
  /\ At(t, "v2")
  /\ LET s == th[t].succs[th[t].lay] IN
     IF Op(t).kind = "del"            \* atomic load of pred.next
     THEN IF NextMatches(t) \/ M("del_nonext") THEN LayerOk(t) ELSE Move(t, Invalid(t), <<>>)
     ELSE IF heap[s].mk /\ ~M("ins_nosuccmark") THEN Move(t, Invalid(t), <<>>)
     ELSE IF NextMatches(t) \/ M("ins_nonext") THEN LayerOk(t)
     ELSE Move(t, Invalid(t), <<>>)
  /\ Same

Unlock(t) ==
  /\ At(t, "u")
  /\ LET T == th[t]
         p == T.preds[T.lay]
         below == {j \in 1..(T.lay - 1) : T.preds[j] # p}
         done == below = {}
         j == CHOOSE a \in below : \A b \in below : b <= a
         T2 == [Goto(t, "") EXCEPT !.hlk = 0, !.pp = Nil, !.lay = 0]
     IN /\ heap' = [heap EXCEPT ![p].lock = Nil]
        /\ CASE ~done -> Move(t, [Goto(t, "u") EXCEPT !.lay = j], <<>>)
             [] done /\ T.aft = "f0" -> Move(t, [StartSearch(T2) EXCEPT !.aft = ""], <<>>)
             [] done /\ T.aft = "d0" ->
                  Move(t, [T2 EXCEPT !.pc = "d0", !.preds = NoPath, !.succs = NoPath, !.aft = ""], <<>>)
             [] done /\ T.aft = "ret" ->
                  IF M("orig_len") THEN Move(t, [T2 EXCEPT !.pc = "al2"], <<>>)
                  ELSE Return(t, Op(t).kind = "store", IF Op(t).kind = "store" THEN 0 ELSE Op(t).v)
             [] done /\ T.aft = "panic" -> Move(t, Finish(t), <<AbortEv(t)>>)
             [] done /\ T.aft = "dl" -> Move(t, [T2 EXCEPT !.pc = "dl"], <<>>)
  /\ UNCHANGED <<na, hl, len>>

(* ------------------------------- insertion ------------------------------- *)
FuncReturns(t) ==         \* the lazy function ran between two steps
  /\ At(t, "fe")
  /\ Op(t).stop = 0
  /\ Move(t, Goto(t, "nv"), <<GEv(t)>>)
  /\ Same

FuncPanics(t) ==          \* it panicked: release the predecessors, insert nothing
  /\ At(t, "fe")
  /\ Op(t).stop = 1
  /\ LET q == [e |-> "q", o |-> OpId(t)] IN
     IF M("orig_panic") THEN Move(t, Finish(t), <<q, AbortEv(t)>>)
     ELSE Move(t, [Goto(t, "u") EXCEPT !.lay = th[t].hlk, !.aft = "panic"], <<q>>)
  /\ Same

NewNode(t) ==             \* allocate, store the value (private until linked)
  /\ At(t, "nv")
  /\ na' = na + 1
  /\ heap' = [heap EXCEPT ![na + 1] =
        [FreeNode EXCEPT !.key = Op(t).k, !.val = Op(t).v, !.lvl = th[t].lvl, !.fl = M("fl_first")]]
  /\ Move(t, [Goto(t, "ln") EXCEPT !.nn = na + 1, !.lay = IF M("link_down") THEN th[t].lvl ELSE 1], <<>>)
  /\ UNCHANGED <<hl, len>>

Link(t) ==
  /\ At(t, "ln")
  /\ LET T == th[t]
         j == T.lay
         p == T.preds[j]
         last == IF M("link_down") THEN j = 1 ELSE j = T.lvl
         step == IF M("link_down") THEN j - 1 ELSE j + 1
     IN /\ heap' = [heap EXCEPT ![T.nn].next[j] = T.succs[j], ![p].next[j] = T.nn]
        /\ IF ~last THEN Move(t, [Goto(t, "ln") EXCEPT !.lay = step], <<>>)
           ELSE Move(t, [Goto(t, IF M("orig_len") THEN "fl1" ELSE "al") EXCEPT !.lay = 0], <<>>)
  /\ UNCHANGED <<na, hl, len>>

CountInsert(t) ==
  /\ At(t, "al")
  /\ len' = len + 1
  /\ Move(t, Goto(t, "fl1"), <<>>)
  /\ UNCHANGED <<heap, na, hl>>

CountInsertLate(t) ==     \* deviation orig_len
  /\ At(t, "al2")
  /\ len' = len + 1
  /\ Return(t, Op(t).kind = "store", IF Op(t).kind = "store" THEN 0 ELSE Op(t).v)
  /\ UNCHANGED <<heap, na, hl>>

FlagRead(t) ==
  /\ At(t, "fl1")
  /\ IF heap[th[t].nn].fl
     THEN Move(t, [Goto(t, "u") EXCEPT !.nn = Nil, !.lay = th[t].hlk, !.aft = "ret"], <<>>)
     ELSE Move(t, Goto(t, "fl2"), <<>>)
  /\ Same

Publish(t) ==             \* fullyLinked: the mapping becomes visible
  /\ At(t, "fl2")
  /\ heap' = [heap EXCEPT ![th[t].nn].fl = TRUE]
  /\ Move(t, [Goto(t, "u") EXCEPT !.nn = Nil, !.lay = th[t].hlk, !.aft = "ret"], <<>>)
  /\ UNCHANGED <<na, hl, len>>

(* -------------------------------- removal -------------------------------- *)
DelTop(t) ==
  /\ At(t, "d0")
  /\ Move(t, [Goto(t, "d1") EXCEPT !.x = Header, !.i = hl, !.lf = 0], <<>>)
  /\ Same

DelSearchDone(t, T) ==
  IF T.mk THEN Move(t, [StartLocking(T) EXCEPT !.lf = 0], <<>>)
  ELSE IF T.lf = 0 THEN Return(t, FALSE, 0)
  ELSE Move(t, [T EXCEPT !.pc = "d2"], <<>>)

DelStep(t) ==
  /\ At(t, "d1")
  /\ LET T == Goto(t, "d1")
         s == heap[T.x].next[T.i]
         k == Op(t).k
         R == [T EXCEPT !.preds[T.i] = T.x, !.succs[T.i] = s,
                        !.lf = IF T.lf = 0 /\ s # Nil /\ heap[s].key = k THEN T.i ELSE T.lf]
     IN IF s # Nil /\ heap[s].key < k THEN Move(t, [T EXCEPT !.x = s], <<>>)
        ELSE IF T.i > 1 THEN Move(t, [R EXCEPT !.i = T.i - 1], <<>>)
        ELSE DelSearchDone(t, [R EXCEPT !.x = Nil, !.i = 0])
  /\ Same

DelCheck(t) ==            \* fully linked, not marked, found at its top layer
  /\ At(t, "d2")
  /\ LET T == th[t]
         v == T.succs[T.lf]
         good == (heap[v].fl \/ M("del_nofl")) /\ (~heap[v].mk \/ M("del_nomark"))
                 /\ (heap[v].lvl = T.lf \/ M("del_notop"))
     IN IF good THEN Move(t, [Goto(t, IF M("del_novlock") THEN "d4" ELSE "d3") EXCEPT !.vic = v, !.top = T.lf], <<>>)
        ELSE Return(t, FALSE, 0)
  /\ Same

DelLock(t) ==
  /\ At(t, "d3")
  /\ heap[th[t].vic].lock = Nil
  /\ heap' = [heap EXCEPT ![th[t].vic].lock = t]
  /\ Move(t, Goto(t, "d4"), <<>>)
  /\ UNCHANGED <<na, hl, len>>

DelRecheck(t) ==
  /\ At(t, "d4")
  /\ IF heap[th[t].vic].mk /\ ~M("del_norecheck")
     THEN IF M("del_novlock") THEN Return(t, FALSE, 0) ELSE Move(t, Goto(t, "d5"), <<>>)
     ELSE Move(t, Goto(t, "d6"), <<>>)
  /\ Same

DelLost(t) ==             \* another call removes it: unlock, report failure
  /\ At(t, "d5")
  /\ heap' = [heap EXCEPT ![th[t].vic].lock = Nil]
  /\ Return(t, FALSE, 0)
  /\ UNCHANGED <<na, hl, len>>

MarkRead(t) ==
  /\ At(t, "d6")
  /\ IF heap[th[t].vic].mk        \* only with del_norecheck
     THEN Move(t, StartLocking([Goto(t, "") EXCEPT !.mk = TRUE, !.lf = 0]), <<>>)
     ELSE Move(t, Goto(t, "d7"), <<>>)
  /\ Same

Mark(t) ==                \* the mapping is removed logically
  /\ At(t, "d7")
  /\ heap' = [heap EXCEPT ![th[t].vic].mk = TRUE]
  /\ Move(t, StartLocking([Goto(t, "") EXCEPT !.mk = TRUE, !.lf = 0]), <<>>)
  /\ UNCHANGED <<na, hl, len>>

Unlink(t) ==
  /\ At(t, "du")
  /\ LET T == th[t]
         j == T.lay
         last == IF M("unlink_up") THEN j = T.top ELSE j = 1
         step == IF M("unlink_up") THEN j + 1 ELSE j - 1
     IN /\ heap' = [heap EXCEPT ![T.preds[j]].next[j] = heap[T.vic].next[j]]
        /\ IF ~last THEN Move(t, [Goto(t, "du") EXCEPT !.lay = step], <<>>)
           ELSE Move(t, [Goto(t, IF M("del_novlock") THEN "u" ELSE "dx") EXCEPT !.lay = T.hlk, !.aft = "dl"], <<>>)
  /\ UNCHANGED <<na, hl, len>>

UnlockVictim(t) ==
  /\ At(t, "dx")
  /\ heap' = [heap EXCEPT ![th[t].vic].lock = Nil]
  /\ Move(t, Goto(t, "u"), <<>>)
  /\ UNCHANGED <<na, hl, len>>

CountRemove(t) ==
  /\ At(t, "dl")
  /\ len' = len - 1
  /\ IF Op(t).kind = "del" THEN Return(t, TRUE, 0) ELSE Move(t, Goto(t, "t1"), <<>>)
  /\ UNCHANGED <<heap, na, hl>>

TakeRead(t) ==            \* LoadAndDelete: read the last value ...
  /\ At(t, "t1")
  /\ IF M("orig_store") THEN Return(t, TRUE, heap[th[t].vic].val)
     ELSE Move(t, [Goto(t, "t2") EXCEPT !.old = heap[th[t].vic].val], <<>>)
  /\ Same

\* ... and replace its cell, so that a Store that still holds the old cell fails.
\* A cell is named by its value (values stored are distinct); the replaced cell
\* has the same contents but a new identity, written here as the negated value.
TakeCas(t) ==
  /\ At(t, "t2")
  /\ LET v == th[t].vic IN
     IF heap[v].val = th[t].old
     THEN heap' = [heap EXCEPT ![v].val = -th[t].old] /\ Return(t, TRUE, th[t].old)
     ELSE heap' = heap /\ Move(t, Goto(t, "t1"), <<>>)
  /\ UNCHANGED <<na, hl, len>>

(* -------------------------------- readers -------------------------------- *)
LoadTop(t) ==
  /\ At(t, "l0")
  /\ Move(t, [Goto(t, "l1") EXCEPT !.x = Header, !.i = hl], <<>>)
  /\ Same

LoadStep(t) ==
  /\ At(t, "l1")
  /\ LET T == Goto(t, "l1")
         s == heap[T.x].next[T.i]
         k == Op(t).k
     IN IF s # Nil /\ heap[s].key < k THEN Move(t, [T EXCEPT !.x = s], <<>>)
        ELSE IF s # Nil /\ heap[s].key = k
        THEN Move(t, [T EXCEPT !.pc = "l2", !.vic = s, !.x = Nil, !.i = 0], <<>>)
        ELSE IF T.i = 1 THEN Return(t, FALSE, 0)
        ELSE Move(t, [T EXCEPT !.i = T.i - 1], <<>>)
  /\ Same

LoadCheck(t) ==
  /\ At(t, "l2")
  /\ LET v == th[t].vic IN
     IF (heap[v].fl \/ M("load_nofl")) /\ (~heap[v].mk \/ M("load_nomark"))
     THEN Move(t, Goto(t, "l3"), <<>>) ELSE Return(t, FALSE, 0)
  /\ Same

LoadValue(t) ==
  /\ At(t, "l3")
  /\ Return(t, TRUE, Abs(heap[th[t].vic].val))
  /\ Same

RangeGo(t, T, n) ==       \* continue the walk at node n
  IF n = Nil THEN Return(t, TRUE, 0) ELSE Move(t, [T EXCEPT !.pc = "r1", !.x = n], <<>>)

RangeNext(t) ==
  /\ (At(t, "r0") \/ At(t, "r3"))
  /\ LET T == Goto(t, "") IN
     RangeGo(t, T, heap[IF At(t, "r0") THEN Header ELSE T.x].next[1])
  /\ Same

RangeCheck(t) ==
  /\ At(t, "r1")
  /\ LET x == th[t].x IN
     IF (heap[x].fl \/ M("range_nofl")) /\ (~heap[x].mk \/ M("range_nomark"))
     THEN Move(t, Goto(t, "r2"), <<>>)
     ELSE Move(t, Goto(t, "r3"), <<>>)
  /\ Same

RangeVisit(t) ==
  /\ At(t, "r2")
  /\ LET x == th[t].x
         n == th[t].vis + 1
         stop == Op(t).stop = n
         ev == VisEv(t, heap[x].key, Abs(heap[x].val), stop)
     IN IF stop THEN Move(t, Finish(t), <<ev, RetEv(t, TRUE, 0)>>)
        ELSE Move(t, [Goto(t, "r3") EXCEPT !.vis = n], <<ev>>)
  /\ Same

ReadLen(t) ==
  /\ At(t, "n0")
  /\ Return(t, TRUE, len)
  /\ Same

(* ------------------------------- the system ------------------------------ *)
Step(t) ==
  \/ LosReadTop(t) \/ LevelLoad(t) \/ LevelCas(t)
  \/ FindTop(t) \/ FindStep(t)
  \/ StoreReadOld(t) \/ StoreCheck(t) \/ StoreCas(t)
  \/ LosCheck(t) \/ LosReadValue(t)
  \/ LockPred(t) \/ CheckPred(t) \/ CheckSucc(t) \/ Unlock(t)
  \/ FuncReturns(t) \/ FuncPanics(t) \/ NewNode(t) \/ Link(t) \/ CountInsert(t) \/ CountInsertLate(t)
  \/ FlagRead(t) \/ Publish(t)
  \/ DelTop(t) \/ DelStep(t) \/ DelCheck(t) \/ DelLock(t) \/ DelRecheck(t) \/ DelLost(t)
  \/ MarkRead(t) \/ Mark(t) \/ Unlink(t) \/ UnlockVictim(t) \/ CountRemove(t)
  \/ TakeRead(t) \/ TakeCas(t)
  \/ LoadTop(t) \/ LoadStep(t) \/ LoadCheck(t) \/ LoadValue(t)
  \/ RangeNext(t) \/ RangeCheck(t) \/ RangeVisit(t) \/ ReadLen(t)

AllDone == \A t \in Threads : th[t].pc = "done"
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

(* The step the code performs at each location (see shim kinds).            *)
Kind(t) ==
  CASE th[t].pc \in {"h0", "rl1", "f0", "d0", "l0", "n0"} -> "load64"
    [] th[t].pc = "rl2" -> "cas64"
    [] th[t].pc \in {"f1", "d1", "l1", "r0", "r3", "s1", "g2", "l3", "r2", "t1"} -> "loadptr"
    [] th[t].pc \in {"s3", "t2"} -> "casptr"
    [] th[t].pc \in {"s2", "g1", "v1", "fl1", "d2", "d4", "d6", "l2", "r1"} -> "load32"
    [] th[t].pc = "v2" -> IF Op(t).kind = "del" THEN "loadptr" ELSE "load32"
    [] th[t].pc \in {"fl2", "d7"} -> "cas32"
    [] th[t].pc \in {"lk", "d3"} -> "lock"
    [] th[t].pc \in {"u", "d5", "dx"} -> "unlock"
    [] th[t].pc \in {"nv", "ln", "du"} -> "storeptr"
    [] th[t].pc \in {"al", "al2", "dl"} -> "add64"
    [] th[t].pc = "fe" -> "user"
    [] OTHER -> "none"

(* ------------------------------- properties ------------------------------ *)
Linearizable == S # {}                                   \* C01-C06, see MapOps
NoCrash == \A t \in Threads : th[t].pc # "crash"         \* C09: no nil dereference
\* C09: deadlock freedom is TLC's deadlock check (Next stutters only when done)

Reach1 == \* nodes on level 0
  LET RECURSIVE R(_) R(n) == IF n = Nil THEN {} ELSE {n} \cup R(heap[n].next[1]) IN R(Header)
ReachL(i) ==
  LET RECURSIVE R(_) R(n) == IF n = Nil THEN {} ELSE {n} \cup R(heap[n].next[i]) IN R(Header)
Sorted == \A n \in 1..na : \A i \in Levels :
     heap[n].next[i] # Nil => heap[heap[n].next[i]].key > heap[n].key
\* every level is a sublist of the level below
Sublists == \A i \in 2..MaxLevel : ReachL(i) \subseteq ReachL(i - 1)
\* at most one unmarked node per key is linked
OneNodePerKey == \A a, b \in Reach1 : (a # b /\ a # Header) => heap[a].key # heap[b].key

\* C07, C13: when all calls returned the list holds exactly the mappings, at
\* every level of their towers, nothing marked, nothing locked, Len exact
Quiet ==
  AllDone =>
    /\ \A n \in 1..na : heap[n].lock = Nil
    /\ \A n \in Reach1 : heap[n].fl /\ ~heap[n].mk
    /\ \A i \in Levels : ReachL(i) = {n \in Reach1 : heap[n].lvl >= i}
    /\ len = Cardinality(Reach1) - 1
    /\ \E c \in S : \A k \in 1..NKeys :
         c.m[k] = (IF \E n \in Reach1 : heap[n].key = k
                   THEN heap[CHOOSE n \in Reach1 : heap[n].key = k].val ELSE 0)
LenNonNegative == len >= 0                               \* C06

(* Why it works: the invariants a maintainer has to keep in mind.           *)
Waiting(t) == th[t].pc \in {"lk", "d3"}
WaitsFor(t) == IF th[t].pc = "d3" THEN th[t].vic ELSE th[t].preds[th[t].lay]
Held(t) == {n \in 1..na : heap[n].lock = t}
\* locks are requested in descending key order, whatever the number of threads,
\* so there is no cycle of waiting calls (C09)
LockOrder == \A t \in Threads : (th[t].pc # "done" /\ Waiting(t) /\ WaitsFor(t) # Nil) =>
               \A n \in Held(t) : n # WaitsFor(t) /\ heap[n].key > heap[WaitsFor(t)].key
\* a call that is done, or has to start over, holds nothing but the node it marked
HoldsNothing == \A t \in Threads :
   th[t].pc \in {"done", "f0", "f1", "rl1", "rl2", "h0", "s1", "s2", "s3", "g1", "g2", "d2", "dl", "t1", "t2",
                "l0", "l1", "l2", "l3", "r0", "r1", "r2", "r3", "n0"} => Held(t) = {}
OnlyVictim == \A t \in Threads :
   th[t].pc \in {"d0", "d1"} => Held(t) = (IF th[t].mk THEN {th[t].vic} ELSE {})
\* a node off the list at some level below its top is marked or being linked
Linked == \A n \in 2..na : (heap[n].fl /\ ~heap[n].mk) => \A i \in 1..heap[n].lvl : n \in ReachL(i)

\* a node's links change only in the hands of the call that holds its lock (or
\* made it and has not linked it), and no longer once it is marked
Frozen == [][\A n \in 1..na : heap'[n].next # heap[n].next =>
               /\ ~heap[n].mk
               /\ \/ heap[n].lock # Nil
                  \/ ~heap[n].fl]_vars
\* the flags are only ever set; a key never changes; the top never sinks
Monotone == [][/\ \A n \in 2..na : /\ heap[n].fl => heap'[n].fl
                                  /\ heap[n].mk => heap'[n].mk
                                  /\ heap'[n].key = heap[n].key /\ heap'[n].lvl = heap[n].lvl
               /\ hl' >= hl]_vars
\* a value stored in a node that has been taken by LoadAndDelete is never replaced (C03)
TakenStays == [][\A n \in 2..na : heap[n].val < 0 => heap'[n].val = heap[n].val]_vars
HlCovers == \A n \in Reach1 \ {Header} : heap[n].lvl <= hl

\* liveness: C09 under fairness for every thread, C08 for readers alone
Reader(t) == th[t].pc # "done" /\ Op(t).kind \in {"load", "range", "len"}
FairAll == Spec /\ \A t \in {1, 2, 3} : WF_vars(t \in Threads /\ Step(t))
AllComplete == <>AllDone
FairReader == Spec /\ WF_vars(1 \in Threads /\ Step(1))
ReaderCompletes == (1 \in Threads /\ Reader(1)) ~> ~(1 \in Threads /\ Reader(1))
=============================================================================
