------------------------------- MODULE RtMem -------------------------------
(***************************************************************************)
(* Memory and rendering.                                                    *)
(*                                                                          *)
(* A unit whose memory has been allocated in advance is ready: rendering    *)
(* and resetting it neither allocate nor free memory.  Changing the sample  *)
(* rate or a setting, or copying it, makes it necessary to allocate again.  *)
(* A unit that is not ready may do as it likes.                             *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Kinds, Seeds, Plays, Rates, MaxInst, Depth, Sim

VARIABLES inst,  \* instances: [ rate |-> rate, ready |-> memory has been allocated, at |-> samples rendered since reset ]
          hist
vars == << inst, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
I == 1..Len(inst)
New0 == [ rate |-> 44100, ready |-> FALSE, at |-> 0 ]

Begin ==
  /\ hist = << >>
  /\ \E k \in Pick(Kinds), s \in Pick(Seeds) : inst' = << New0 >> /\ Do([ a |-> "kind", k |-> k, s |-> s ])
More == Len(inst) < MaxInst /\ inst' = Append(inst, New0) /\ Do([ a |-> "new" ])
Alloc == \E i \in Pick(I) : inst' = [ inst EXCEPT ![i].ready = TRUE ] /\ Do([ a |-> "alloc", i |-> i ])
Play ==
  \E i \in Pick(I), s \in Pick(1..40), n \in Pick(Plays) :
    /\ inst' = [ inst EXCEPT ![i].at = @ + n ]
    /\ Do([ a |-> "play", i |-> i, s |-> s, at |-> inst[i].at, n |-> n, still |-> inst[i].ready ])
Reset == \E i \in Pick(I) : inst' = [ inst EXCEPT ![i].at = 0 ] /\ Do([ a |-> "reset", i |-> i, still |-> inst[i].ready ])
Rate ==
  \E i \in Pick(I), r \in Pick(Rates) :
    inst' = [ inst EXCEPT ![i].ready = @ /\ inst[i].rate = r, ![i].rate = r ] /\ Do([ a |-> "rate", i |-> i, r |-> r ])
Set ==
  \E i \in Pick(I), p \in Pick(1..16), v \in Pick(1..9) :
    inst' = [ inst EXCEPT ![i].ready = FALSE ] /\ Do([ a |-> "set", i |-> i, p |-> p, v |-> v ])
Copy ==
  \E i \in Pick(I) : Len(inst) < MaxInst /\ inst' = Append(inst, [ inst[i] EXCEPT !.ready = FALSE ]) /\ Do([ a |-> "clone", i |-> i ])
Query == \E i \in Pick(I), w \in Pick({ "query", "empty" }) : Do([ a |-> w, i |-> i ]) /\ UNCHANGED inst

Init == inst = << >> /\ hist = << >>
On(A) == inst # << >> /\ A
Next == Begin \/ On(Alloc) \/ On(Alloc) \/ On(Alloc) \/ On(Play) \/ On(Play) \/ On(Play) \/ On(Reset) \/ On(Rate) \/ On(Set) \/ On(Copy) \/ On(Query)
        \/ On(More)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* Rendering keeps a unit ready.
Stays == [][ \A i \in I : inst[i].ready /\ inst'[i].rate = inst[i].rate /\ ~inst'[i].ready => hist'[Len(hist')].a = "set" ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
