------------------------------ MODULE Envelope ------------------------------
(***************************************************************************)
(* Sampled envelopes.                                                       *)
(*                                                                          *)
(* The control function is evaluated at sampling points, the first at time  *)
(* zero and each 0.75 ... 1.25 intervals after the previous, and the output *)
(* is linear in between.  Where the points fall is left open; the function  *)
(* is linear with at most one kink plus the value of the input, so that the *)
(* output is known exactly except near the kink and just after the input    *)
(* changed, where it lies between the values of the surroundings.           *)
(* Time is in ticks (1/8192 s), values are in thousandths.                  *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Kinds, Rates, Plays, Intervals, Depth, Sim

VARIABLES u, rate, now, ival, inp, hist
vars == << u, rate, now, ival, inp, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
On == hist # << >>

Tick == 8192 \div rate
\* The function: slopes b before and c after the kink at k.
F(t) == u.a * 1000 + u.b * Min(t, u.k) + u.c * Max(0, t - u.k)
\* Longest distance between two points; ival is the longest interval in use since the start.
Gap == (5 * ival) \div 4 + 2
Hull(t) ==
  IF t - Gap < u.k /\ u.k < t + Gap
  THEN LET S == { F(Max(0, t - Gap)), F(u.k), F(t + Gap), F(t) } IN
       << CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : x >= y >>
  ELSE << F(t), F(t) >>
\* Input values heard lately: inp is a sequence of << time, value >>.
Lately(t, p) == { p[i][2] : i \in { j \in DOMAIN p : j = Len(p) \/ p[j + 1][1] >= t - 2 * Gap } }
Bounds(t, p) ==
  LET h == Hull(t)
      X == IF u.ins = 0 THEN { 0 } ELSE Lately(t, p)
  IN << h[1] + 1000 * (CHOOSE x \in X : \A y \in X : x <= y), h[2] + 1000 * (CHOOSE x \in X : \A y \in X : x >= y) >>

Begin ==
  /\ hist = << >>
  /\ \E k \in Pick(Kinds), r \in Pick(Rates), i \in Pick(Intervals), a \in Pick(0..9), b \in Pick(0..40), c \in Pick(0..40), e \in Pick({ 0, 77, 700, 2000, 999999 }) :
       /\ u' = [ kind |-> k, ins |-> IF k \in { "env", "env32", "lfo" } THEN 0 ELSE IF k \in { "in2", "env3" } THEN 2 ELSE 1,
                 a |-> a, b |-> b - 20, c |-> c - 20, k |-> e ]
       /\ rate' = r /\ now' = 0 /\ inp' = << >>
       /\ ival' = IF k \in { "env", "in", "in2" } THEN i ELSE 17
       /\ Do([ a |-> "make", k |-> k, r |-> r, i |-> i, fa |-> a, fb |-> b - 20, fc |-> c - 20, fk |-> e ])
Play ==
  \E n \in Pick(Plays), x \in Pick(0..12) :
    LET p == IF inp # << >> /\ inp[Len(inp)][2] = x THEN inp ELSE Append(inp, << now, x >>)
    IN /\ inp' = p /\ now' = now + n * Tick
       /\ Do([ a |-> "play", n |-> n, in |-> x, x |-> [ j \in 1..n |-> Bounds(now + (j - 1) * Tick, p) ] ])
       /\ UNCHANGED << u, rate, ival >>
Reset == now' = 0 /\ inp' = << >> /\ Do([ a |-> "reset" ]) /\ UNCHANGED << u, rate, ival >>
Rate == \E r \in Pick(Rates) : rate' = r /\ Do([ a |-> "rate", r |-> r ]) /\ UNCHANGED << u, now, ival, inp >>
SetInterval ==
  \E i \in Pick(Intervals) : ival' = Max(ival, i) /\ Do([ a |-> "interval", i |-> i ]) /\ UNCHANGED << u, rate, now, inp >>
Copy == Do([ a |-> "copy" ]) /\ UNCHANGED << u, rate, now, ival, inp >>
Init == u = [ kind |-> "env", ins |-> 0, a |-> 0, b |-> 0, c |-> 0, k |-> 0 ] /\ rate = 1024 /\ now = 0 /\ ival = 17 /\ inp = << >> /\ hist = << >>
Next == Begin \/ (On /\ \E op \in Pick(1..10) :
          CASE op \in 1..6 -> Play [] op = 7 -> Reset [] op = 8 -> Rate [] op = 9 -> SetInterval [] op = 10 -> Copy)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* Away from the kink, with steady input, the output is determined.
Exact == On => LET b == Bounds(now + 3 * Gap, inp) IN
           (inp # << >> /\ (u.k < now \/ u.k > now + 4 * Gap)) => b[1] = b[2]
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
