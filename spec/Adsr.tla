-------------------------------- MODULE Adsr --------------------------------
(***************************************************************************)
(* The live ADSR envelope.                                                  *)
(*                                                                          *)
(* Instances (an original and a copy of it) each have their own time and    *)
(* gate.  The gate is sampled at points at most Gap apart, so attack and    *)
(* release start up to Late ticks after the gate changed; the output is     *)
(* between the lowest and the highest value that allows.  Just after a      *)
(* change it is only known to be in 0 ... 1.  An envelope whose gate was    *)
(* never open is silent.  Time is in ticks (1/8192 s), levels in 1/1000.    *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Times, Levels, Rates, Plays, Depth, Sim

VARIABLES p, rate, inst, hist
vars == << p, rate, inst, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
On == hist # << >>

Gap == 21                 \* 1.25 * 2 ms
Late == 2 * Gap
Tick == 8192 \div rate
\* Attack, decay and sustain, t after the start of the attack.
Ads(t) == IF t < 0 THEN 0
          ELSE IF t < p.a THEN (1000 * t) \div p.a
          ELSE IF t - p.a < p.d THEN 1000 - ((1000 - p.s) * (t - p.a)) \div p.d ELSE p.s
\* Lowest and highest for times t0 ... t1.
AdsLo(t0, t1) == Min(Ads(t0), Ads(t1))
AdsHi(t0, t1) == IF t0 <= p.a /\ p.a <= t1 THEN 1000 ELSE Max(Ads(t0), Ads(t1))
Rel(t) == IF t >= p.r THEN 0 ELSE IF t <= 0 THEN 1000 ELSE (1000 * (p.r - t)) \div p.r

\* An instance: time, gate, when the gate opened (-1: never) and closed (-1: is open), whether it was open from the start.
New == [ t |-> 0, gate |-> FALSE, open |-> 0 - 1, close |-> 0 - 1, begun |-> FALSE, ch |-> 0 ]
Gate(i, g) ==
  IF ~i.begun THEN [ i EXCEPT !.begun = TRUE, !.gate = g, !.open = IF g THEN 0 ELSE 0 - 1, !.ch = 0 - 1000 ]
  ELSE IF i.gate = g THEN i
  ELSE IF g THEN [ i EXCEPT !.gate = g, !.open = i.t, !.close = 0 - 1, !.ch = i.t ]
  ELSE [ i EXCEPT !.gate = g, !.close = i.t, !.ch = i.t ]
\* What the output may be at time t.
Bounds(i, t) ==
  IF i.open < 0 THEN << 0, 0 >>
  ELSE IF t - i.ch <= Late + Gap THEN << 0, 1000 >>
  ELSE LET a0 == t - i.open - Late - Gap  a1 == t - i.open + Gap
           lo == AdsLo(a0, a1)  hi == AdsHi(a0, a1)
       IN IF i.gate THEN << lo, hi >>
          ELSE << (lo * Rel(t - i.close + Gap)) \div 1000, (hi * Rel(t - i.close - Late - Gap)) \div 1000 + 1 >>

Begin ==
  /\ hist = << >>
  /\ \E a \in Pick(Times), d \in Pick(Times), s \in Pick(Levels), r \in Pick(Times), f \in Pick(Rates) :
       /\ p' = [ a |-> a, d |-> d, s |-> s, r |-> r ] /\ rate' = f /\ inst' = << New, New >>
       /\ Do([ a |-> "make", at |-> a, d |-> d, s |-> s, re |-> r, r |-> f ])
Play ==
  \E k \in Pick(1..2), n \in Pick(Plays), g0 \in Pick({ TRUE, FALSE }) :
    \* a gate change shorter than the sampling of the gate may go unnoticed, so gates stay for a while
    LET g == IF inst[k].begun /\ inst[k].t - inst[k].ch < Late + Gap THEN inst[k].gate ELSE g0
        i == Gate(inst[k], g)
        j == [ i EXCEPT !.t = @ + n * Tick ]
    IN /\ inst' = [ inst EXCEPT ![k] = j ]
       /\ Do([ a |-> "play", k |-> k, n |-> n, gate |-> g, x |-> [ m \in 1..((n + 7) \div 8) |-> Bounds(i, i.t + 8 * (m - 1) * Tick) ] ])
       /\ UNCHANGED << p, rate >>
Reset == \E k \in Pick(1..2) : inst' = [ inst EXCEPT ![k] = New ] /\ Do([ a |-> "reset", k |-> k ]) /\ UNCHANGED << p, rate >>
Copy == \E k \in Pick(1..2) : inst' = [ inst EXCEPT ![3 - k] = inst[k] ] /\ Do([ a |-> "copy", k |-> k ]) /\ UNCHANGED << p, rate >>
Rate == \E f \in Pick(Rates) : rate' = f /\ Do([ a |-> "rate", r |-> f ]) /\ UNCHANGED << p, inst >>
Init == p = [ a |-> 0, d |-> 0, s |-> 0, r |-> 0 ] /\ rate = 1024 /\ inst = << New, New >> /\ hist = << >>
Next == Begin \/ (On /\ \E op \in Pick(1..14) :
          CASE op \in 1..10 -> Play [] op = 11 -> Reset [] op \in 12..13 -> Copy [] op = 14 -> Rate)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
InRange == On => \A k \in 1..2 : LET b == Bounds(inst[k], inst[k].t) IN 0 <= b[1] /\ b[1] <= b[2] /\ b[2] <= 1001
\* A long time after the gate closed there is silence.
Silence == On => \A k \in 1..2 : ~inst[k].gate => Bounds(inst[k], inst[k].t + p.r + 1000)[2] <= 1
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
