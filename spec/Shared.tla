------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* Shared controls, shared tables, timers, monitors and meters.             *)
(*                                                                          *)
(* Two variables are written by the user and output by nodes; a timer and   *)
(* three monitors (sample, peak, rms) write variables which the user reads; *)
(* a table is written by the user and read by an oscillator.  Levels are    *)
(* scaled by Unit; the smoothing of peak and rms decays by half in one      *)
(* timescale.                                                               *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Rates, Plays, Depth, Sim

Base == 1024
Unit == 4096
VARIABLES ts, rate, val, time, last, peak, power, heard, table, mode, pos, hist
vars == << ts, rate, val, time, last, peak, power, heard, table, mode, pos, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
On == hist # << >>

\* 2^14 times one half to the power of Base / (ts * rate).
Keep == LET k == (2 * ts * rate) \div Base
        IN CASE k = 1 -> 4096 [] k = 2 -> 8192 [] k = 4 -> 11585 [] k = 8 -> 13777 [] OTHER -> 15024
Decay(v) == (v * Keep + 8192) \div 16384

In(s, t) == ((s * 7 + t * 5 + (t * t) \div 3) % 9) - 4
RECURSIVE Meters(_, _, _, _)
\* Peak and power after each sample of x.
Meters(x, p, w, acc) ==
  IF x = << >> THEN acc
  ELSE LET v == Abs(Head(x))
           q == Max(Decay(p), v * Unit)
           y == (w * Keep + v * v * Unit * (16384 - Keep)) \div 16384
       IN Meters(Tail(x), q, y, Append(acc, << q, y >>))

N == Len(table)
At(i) == table[(i % N) + 1]
\* The table read at half-index h (an integer position when h is even), times sixteen.
Read(h) ==
  LET i == h \div 2 IN
  IF h % 2 = 0 THEN 16 * At(i)
  ELSE IF mode = 1 THEN 8 * (At(i) + At(i + 1))
  ELSE 9 * (At(i) + At(i + 1)) - At(i + N - 1) - At(i + 2)

Begin ==
  /\ hist = << >>
  /\ \E t \in Pick({ 1, 4 }), r \in Pick(Rates), m \in Pick(0..2), l \in Pick({ 4, 8, 16 }), a \in Pick(1..40) :
       /\ ts' = t /\ rate' = r /\ mode' = m
       /\ table' = [ i \in 1..l |-> (a * i * i + 7 * i) % 23 ]
       /\ val' = << a, a + 1 >> /\ time' = 0 /\ last' = 0 /\ peak' = 0 /\ power' = 0 /\ heard' = FALSE /\ pos' = 0
       /\ Do([ a |-> "make", t |-> t, r |-> r, m |-> m, w |-> table', v |-> val' ])

Set ==
  \E k \in Pick(1..2), v \in Pick(0..60) :
    /\ val' = [ val EXCEPT ![k] = v - 30 ]
    /\ Do([ a |-> "set", k |-> k, v |-> v - 30 ])
    /\ UNCHANGED << ts, rate, time, last, peak, power, heard, table, mode, pos >>
SetTable ==
  \E i \in Pick(1..N), v \in Pick(0..60) :
    /\ table' = [ table EXCEPT ![i] = v - 30 ]
    /\ Do([ a |-> "table", i |-> i - 1, v |-> v - 30 ])
    /\ UNCHANGED << ts, rate, val, time, last, peak, power, heard, mode, pos >>
Play ==
  \E n \in Pick(Plays), s \in Pick(1..30), d \in Pick({ 1, 2, 3, 6 }) :
    LET x == TLCEval([ j \in 1..n |-> In(s, j) ])
        ms == TLCEval(Meters(x, peak, power, << >>))
        step == IF mode = 0 THEN 2 * d ELSE d
    IN /\ time' = time + n * ((8 * Base) \div rate)
       /\ last' = x[n] /\ peak' = ms[n][1] /\ power' = ms[n][2] /\ heard' = TRUE
       /\ pos' = (pos + n * step) % (2 * N)
       /\ Do([ a |-> "play", in |-> x, m |-> ms, step |-> step, len |-> N,
               tab |-> [ j \in 1..n |-> Read((pos + j * step) % (2 * N)) ],
               v |-> val, t |-> time', last |-> last' ])
       /\ UNCHANGED << ts, rate, val, table, mode >>
Reset ==
  /\ time' = 0 /\ last' = 0 /\ peak' = 0 /\ power' = 0 /\ heard' = FALSE /\ pos' = 0
  /\ Do([ a |-> "reset", v |-> val, t |-> 0 ]) /\ UNCHANGED << ts, rate, val, table, mode >>
Rate ==
  \E r \in Pick(Rates) : rate' = r /\ Do([ a |-> "rate", r |-> r, v |-> val, t |-> time ])
    /\ UNCHANGED << ts, val, time, last, peak, power, heard, table, mode, pos >>
\* A clone continues in place of the original.
Copy == Do([ a |-> "copy", v |-> val, t |-> time ])
    /\ UNCHANGED << ts, rate, val, time, last, peak, power, heard, table, mode, pos >>

Init == /\ ts = 1 /\ rate = Base /\ val = << 0, 0 >> /\ time = 0 /\ last = 0 /\ peak = 0 /\ power = 0
        /\ heard = FALSE /\ table = << 0, 0, 0, 0 >> /\ mode = 0 /\ pos = 0 /\ hist = << >>
Next == Begin \/ (On /\ \E op \in Pick(1..13) :
          CASE op \in 1..5 -> Play [] op \in 6..8 -> Set [] op \in 9..10 -> SetTable [] op = 11 -> Reset [] op = 12 -> Rate [] op = 13 -> Copy)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The peak is never below the last sample nor the power above the peak squared.
Levels == heard => peak >= Unit * Abs(last)
\* Nothing was heard since reset: nothing is shown.
Quiet == ~heard => peak = 0 /\ power = 0 /\ pos = 0
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
