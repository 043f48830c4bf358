------------------------------- MODULE Delay -------------------------------
(***************************************************************************)
(* Delays, taps and feedback loops as difference equations.                 *)
(*                                                                          *)
(* Every unit here is: w[t] = in[t] + feedback from earlier outputs, and    *)
(* y[t] = a reading of w at some delay.  Values are integers in units of    *)
(* 1/Unity.  Times are in eighths of a sample at the base rate and become   *)
(* samples at the current rate by rounding to the nearest.                  *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Kinds, Times, Rates, Plays, Depth, Sim

Base == 1024
Unity == 16384

VARIABLES u,     \* the unit: kind and parameters
          rate,  \* current sample rate
          w, y,  \* what entered the delay line and what came out since the last reset, frame by frame
          hist
vars == << u, rate, w, y, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)

-----------------------------------------------------------------------------
\* Samples of a time at a rate, to the nearest; a tie is left open and avoided.
Samples(a, r) == (2 * a * r + 8 * Base) \div (16 * Base)
Tie(a, r) == (2 * a * r + 8 * Base) % (16 * Base) = 0
Times4(k) == CASE k \in { "tick1", "tick2" } -> 0
              [] k \in { "delay", "fb", "allnest", "neg" } -> 1
              [] k \in { "fb2", "fbs", "unit", "chain", "bus" } -> 2
              [] k \in { "fdn", "fdn2" } -> 4
              [] OTHER -> 0
Channels(k) == CASE k \in { "tick2", "fbs" } -> 2 [] k \in { "fdn", "fdn2" } -> 4 [] OTHER -> 1
Taps(k) == CASE k \in { "tap1", "lin1" } -> 1 [] k \in { "tap2", "lin2" } -> 2 [] OTHER -> 0
Ins(k) == Channels(k) + Taps(k)
\* Tap limits are kept on the grid of eighths of a sample.
RatesOf(k) == IF Taps(k) > 0 THEN { r \in Rates : (2 * r) % Base = 0 \/ Base % r = 0 } ELSE Rates

L(i) == Samples(u.t[i], rate)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* Frame d samples before the last of sequence s; zero before the beginning.
Back(s, c, d) == IF d < Len(s) THEN s[Len(s) - d][c] ELSE 0

\* Frame of inputs that goes with the next sample: W is the line before it, Y the outputs so far.
Had(v, c) ==
  CASE c = 1 -> v[1] + v[2] + v[3] + v[4]
    [] c = 2 -> v[1] - v[2] + v[3] - v[4]
    [] c = 3 -> v[1] + v[2] - v[3] - v[4]
    [] c = 4 -> v[1] - v[2] - v[3] + v[4]
Fb(W, Y, c) ==
  CASE u.k \in { "fb", "fbs" } -> Back(Y, c, 0)
    [] u.k = "fb2" -> u.g * Back(Y, c, L(2))
    [] u.k = "unit" -> Back(Y, c, Max2(1, L(2)) - 1)
    [] u.k = "fdn" -> Had([ j \in 1..4 |-> Back(Y, j, 0) ], c) \div 2
    [] u.k = "fdn2" -> (u.g * Had([ j \in 1..4 |-> Back(Y, j, 0) ], c)) \div 2
    [] u.k = "allnest" -> 0 - ((u.g * Back(W, c, L(1))) \div 2)
    [] OTHER -> 0

\* Interpolation between samples; p is a delay in eighths of a sample.
Lin(W, p) == LET d == p \div 8 q == p % 8 IN (Back(W, 1, d) * (8 - q) + Back(W, 1, d + 1) * q) \div 8
Cub(W, p) ==
  LET d == p \div 8 q == p % 8
      y0 == Back(W, 1, d - 1) y1 == Back(W, 1, d) y2 == Back(W, 1, d + 1) y3 == Back(W, 1, d + 2)
  IN y1 + (64 * q * (y2 - y0) + 8 * q * q * (2 * y0 - 5 * y1 + 4 * y2 - y3) + q * q * q * (3 * (y1 - y2) + y3 - y0)) \div 1024
Lo(r) == (u.t[1] * r) \div Base
Hi(r) == (u.t[2] * r) \div Base
Clamp(x) == Max2(Lo(rate), Min2(Hi(rate), x))
RECURSIVE TapSum(_, _)
TapSum(W, ts) ==
  IF ts = << >> THEN 0
  ELSE (IF u.k \in { "lin1", "lin2" } THEN Lin(W, Clamp(Head(ts))) ELSE Cub(W, Max2(8, Clamp(Head(ts))))) + TapSum(W, Tail(ts))

Fwd(W, c, ts) ==
  CASE u.k \in { "tick1", "tick2" } -> Back(W, c, 1)
    [] u.k = "delay" -> Back(W, 1, L(1))
    [] u.k = "neg" -> 0 - Back(W, 1, L(1))
    [] u.k = "fb" -> u.g * Back(W, 1, L(1))
    [] u.k = "fbs" -> u.g * Back(W, c, L(c))
    [] u.k = "fb2" -> Back(W, 1, L(1))
    [] u.k = "unit" -> u.g * Back(W, 1, L(1))
    [] u.k = "chain" -> Back(W, 1, L(1) + L(2))
    [] u.k = "bus" -> Back(W, 1, L(1)) + Back(W, 1, L(2))
    [] u.k \in { "fdn", "fdn2" } -> Back(W, c, L(c))
    [] u.k = "allnest" -> ((u.g * Back(W, 1, 0)) \div 2) + Back(W, 1, L(1) + 1)
    [] OTHER -> TapSum(W, ts)

RECURSIVE Run(_, _, _)
Run(W, Y, in) ==
  IF in = << >> THEN << W, Y >>
  ELSE LET x == Head(in)
           f == TLCEval([ c \in 1..Channels(u.k) |-> x[c] * Unity + Fb(W, Y, c) ])
           W2 == Append(W, f)
           o == TLCEval([ c \in 1..Channels(u.k) |-> Fwd(W2, c, SubSeq(x, Channels(u.k) + 1, Len(x))) ])
       IN Run(W2, Append(Y, o), Tail(in))

-----------------------------------------------------------------------------
\* Input frames: small integers, then tap delays in eighths of a sample, also out of range.
In(s, t) ==
  [ c \in 1..Ins(u.k) |->
      IF c <= Channels(u.k) THEN ((s * 31 + t * 17 + t * t * 5 + c * 13 + (t * c) \div 3) % 11) - 5
      ELSE ((s * 37 + c * 11 + (t \div (1 + (s % 7))) * 29) % (Hi(rate) + 20)) ]

NoTies(t, r) == \A i \in DOMAIN t : ~Tie(t[i], r)
Begin ==
  /\ hist = << >>
  /\ \E k \in Pick(Kinds) : \E r \in Pick(RatesOf(k)), g \in Pick({ 1, -1 }),
        a \in Pick(Times), b \in Pick(Times), c \in Pick(Times), d \in Pick(Times) :
       LET n == Times4(k)
           t == IF Taps(k) > 0 THEN << 2 * Min2(a, b), 2 * Max2(a, b) >> ELSE SubSeq(<< a, b, c, d >>, 1, n)
       IN /\ Taps(k) > 0 \/ NoTies(t, r)
          /\ u' = [ k |-> k, t |-> t, g |-> g ] /\ rate' = r /\ w' = << >> /\ y' = << >>
          /\ Do([ a |-> "make", k |-> k, t |-> t, g |-> g, r |-> r ])
On == hist # << >>
Play ==
  \E n \in Pick(Plays), s \in Pick(1..30) :
    LET in == TLCEval([ j \in 1..n |-> In(s, Len(w) + j) ])
        r == Run(w, y, in)
    IN /\ w' = r[1] /\ y' = r[2]
       /\ Do([ a |-> "play", n |-> n, in |-> in, x |-> SubSeq(r[2], Len(y) + 1, Len(y) + n) ])
       /\ UNCHANGED << u, rate >>
Reset ==
  /\ w' = << >> /\ y' = << >> /\ Do([ a |-> "reset" ]) /\ UNCHANGED << u, rate >>
\* A new sample rate, with a reset.
Rate ==
  \E r \in Pick(RatesOf(u.k)) :
    /\ Taps(u.k) > 0 \/ NoTies(u.t, r)
    /\ rate' = r /\ w' = << >> /\ y' = << >> /\ Do([ a |-> "rate", r |-> r ]) /\ UNCHANGED u
Copy == Do([ a |-> "copy" ]) /\ UNCHANGED << u, rate, w, y >>

Init == u = [ k |-> "none", t |-> << >>, g |-> 1 ] /\ rate = Base /\ w = << >> /\ y = << >> /\ hist = << >>
\* The kind of step is chosen first: only that one is worked out.
Next == Begin \/ (On /\ \E op \in Pick(1..8) :
          CASE op \in 1..5 -> Play [] op = 6 -> Reset [] op = 7 -> Rate [] op = 8 -> Copy)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Nothing comes out before the shortest delay has passed; then the impulse itself comes out.
Causal ==
  (u.k \in { "delay", "chain" }) =>
     LET n == IF u.k = "delay" THEN L(1) ELSE L(1) + L(2)
     IN \A i \in DOMAIN y : y[i][1] = IF i <= n THEN 0 ELSE w[i - n][1]
\* The loop equation, stated on the finished streams.
Loop ==
  (u.k = "fb") => \A i \in DOMAIN y :
     y[i][1] = u.g * (IF i > L(1) THEN w[i - L(1)][1] ELSE 0)
InStep == Len(w) = Len(y)
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
