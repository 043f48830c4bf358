------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* What every unit has in common, whatever it computes.                     *)
(*                                                                          *)
(* The stream a unit delivers is a function of its tape: the sample rate    *)
(* and settings it had when it was new or last reset, and the input,        *)
(* settings and rate changes it was given since, sample by sample.  How the *)
(* stream was split into calls, memory allocated in advance, queries and    *)
(* empty blocks are not on the tape; a copy starts with a copy of the tape; *)
(* a reset leaves an empty tape.                                            *)
(*                                                                          *)
(* One behaviour is about one kind of unit with one choice of parameters.   *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Kinds, Seeds, Plays, Rates, MaxInst, Depth, Sim

VARIABLES inst,  \* instances: [ rate, sets, ev, on, at ]
          hist
vars == << inst, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S

New0 == [ rate |-> 44100, sets |-> << >>, ev |-> << >>, at |-> 0 ]
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
I == 1..Len(inst)

\* The current rate and all settings, in order.
RECURSIVE RateAfter(_, _), SetsIn(_)
RateAfter(r, ev) == IF ev = << >> THEN r ELSE RateAfter(IF Head(ev).k = "rate" THEN Head(ev).r ELSE r, Tail(ev))
SetsIn(ev) == IF ev = << >> THEN << >> ELSE (IF Head(ev).k = "set" THEN << Head(ev) >> ELSE << >>) \o SetsIn(Tail(ev))

Begin ==
  /\ hist = << >>
  /\ \E k \in Pick(Kinds), s \in Pick(Seeds) :
       /\ inst' = << New0 >>
       /\ Do([ a |-> "kind", k |-> k, s |-> s ])
More ==
  /\ Len(inst) < MaxInst /\ inst' = Append(inst, New0) /\ Do([ a |-> "new" ])

Extend(i, e) == inst' = [ inst EXCEPT ![i].ev = Append(@, e) ]
Play ==
  \E i \in Pick(I), s \in Pick(1..40), n \in Pick(Plays) :
    /\ inst' = [ inst EXCEPT ![i].ev = Append(@, [ k |-> "in", s |-> s, at |-> inst[i].at, n |-> n ]), ![i].at = @ + n ]
    /\ Do([ a |-> "play", i |-> i, s |-> s, at |-> inst[i].at, n |-> n, x |-> inst[i] ])
Rate ==
  \E i \in Pick(I), r \in Pick(Rates) :
    Extend(i, [ k |-> "rate", r |-> r ]) /\ Do([ a |-> "rate", i |-> i, r |-> r ])
Set ==
  \E i \in Pick(I), p \in Pick(1..16), v \in Pick(1..9) :
    Extend(i, [ k |-> "set", p |-> p, v |-> v ]) /\ Do([ a |-> "set", i |-> i, p |-> p, v |-> v ])
Reset ==
  \E i \in Pick(I) :
    /\ inst' = [ inst EXCEPT ![i] = [ rate |-> RateAfter(@.rate, @.ev), sets |-> @.sets \o SetsIn(@.ev), ev |-> << >>, at |-> 0 ] ]
    /\ Do([ a |-> "reset", i |-> i ])
Copy ==
  \E i \in Pick(I) :
    /\ Len(inst) < MaxInst
    /\ inst' = Append(inst, inst[i]) /\ Do([ a |-> "clone", i |-> i ])
Nothing ==
  \E i \in Pick(I), w \in Pick({ "alloc", "query", "empty" }) :
    Do([ a |-> w, i |-> i ]) /\ UNCHANGED inst

Init == inst = << >> /\ hist = << >>
On(A) == inst # << >> /\ A
Next == Begin \/ On(Play) \/ On(Play) \/ On(Play) \/ On(Rate) \/ On(Set) \/ On(Nothing) \/ On(More)
SpecB01 == Init /\ [][Next]_vars
Next2 == Begin \/ On(Play) \/ On(Play) \/ On(Play) \/ On(Reset) \/ On(Reset) \/ On(Copy) \/ On(Rate) \/ On(Set) \/ On(Nothing) \/ On(More)
SpecB02 == Init /\ [][Next2]_vars

-----------------------------------------------------------------------------
\* Samples on a tape.
RECURSIVE Samples(_)
Samples(ev) == IF ev = << >> THEN 0 ELSE (IF Head(ev).k = "in" THEN Head(ev).n ELSE 0) + Samples(Tail(ev))
Counted == \A i \in I : Samples(inst[i].ev) = inst[i].at
\* Every tape is explained by the actions on the instance alone: others leave it as it is.
Independent == [][ Cardinality({ i \in I : inst'[i] # inst[i] }) <= 1 ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
