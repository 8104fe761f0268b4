------------------------------ MODULE TraceImpl ------------------------------
(***************************************************************************)
(* Conformance of the algorithm model to the code, step by step: the file   *)
(* named by TRACES has one recorded execution per line, with the scenario   *)
(* (sc), the steps <<thread, kind>> in the order in which the code performed *)
(* them, and the observed events. The model follows the same schedule; an    *)
(* execution agrees if every step is enabled, is of the same kind, and the   *)
(* events are the same. Agreement on the tree at hand is what carries the    *)
(* results of model checking SkipMapImpl over to the code; disagreement says *)
(* that the code performs other steps, not that it is wrong.                 *)
(***************************************************************************)
EXTENDS SkipMapImpl, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES cs, pos
tvars == <<vars, cs, pos>>

TInit ==
  /\ cs \in 1..Len(Cases)
  /\ pos = 1
  /\ sc = Cases[cs].sc
  /\ heap = BuildHeap(sc.init)
  /\ na = Len(sc.init) + 1
  /\ hl = MaxLvl(sc.init, DefaultHL)
  /\ len = Len(sc.init)
  /\ th = [t \in DOMAIN sc.prog |-> Locals(sc.prog[t], 1)]
  /\ S = <<>>
  /\ info = [x \in {} |-> {}]

Class(k) ==
  CASE k \in {"load64", "loadptr"} -> "load8"  [] k = "load32" -> "load4"
    [] k \in {"cas64", "casptr"} -> "cas8"     [] k = "cas32" -> "cas4"
    [] k = "storeptr" -> "store8"              [] k = "add64" -> "add8"
    [] OTHER -> k

TNext ==
  /\ pos <= Len(Cases[cs].steps)
  /\ LET s == Cases[cs].steps[pos] IN
       /\ Class(Kind(s[1])) = s[2]
       /\ Step(s[1])
  /\ pos' = pos + 1
  /\ UNCHANGED cs

TSpec == TInit /\ [][TNext]_tvars

Enc(e) ==
  CASE e.e = "c" -> <<"c", e.o, e.kind, e.k, e.v>>
    [] e.e = "r" -> <<"r", e.o, e.ok, e.v>>
    [] e.e = "v" -> <<"v", e.o, e.k, e.v, e.ok>>
    [] e.e = "f" -> <<"f", e.o>>
    [] e.e = "g" -> <<"g", e.o, e.v>>

TView == <<cs, pos>>
Agrees ==
  (pos = Len(Cases[cs].steps) + 1 /\ AllDone /\ [i \in 1..Len(S) |-> Enc(S[i])] = Cases[cs].events)
     => PrintT(<<"AGREES", cs>>)
=============================================================================
