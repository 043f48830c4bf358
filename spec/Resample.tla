------------------------------ MODULE Resample -----------------------------
(***************************************************************************)
(* Variable speed resampling of a generator.                                *)
(*                                                                          *)
(* The reading position starts at the second sample of the generator and    *)
(* moves by the speed (in quarters of a sample; never backwards) before     *)
(* every output.  The output is the cubic interpolation of the generator's  *)
(* stream at the position: between samples it depends on the four nearest   *)
(* ones, on a sample it is that sample.                                     *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS MaxLen, Speeds, Plays, Depth, Sim

VARIABLES rs,     \* resamplers: [ s |-> channels (samples), loop |-> repeats, pos |-> position in quarters ]
          hist
vars == << rs, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
Val(n, i) == ((n * 7 + i * 13 + ((n * i) % 11)) % 19) - 9
\* Sample k of the stream, counted from zero.
At(r, c, k) == LET n == Len(r.s[c]) IN IF r.loop THEN r.s[c][(k % n) + 1] ELSE IF k < n THEN r.s[c][k + 1] ELSE 0

\* 128 times the interpolation at x / 4 between y1 and y2.
Spline(y0, y1, y2, y3, x) ==
  (128 * y1) + (x * 16 * (y2 - y0)) + (x * x * 4 * ((2 * y0) - (5 * y1) + (4 * y2) - y3)) + (x * x * x * ((3 * (y1 - y2)) + y3 - y0))
Out(r, c, pos) ==
  LET i == pos \div 4 IN Spline(At(r, c, i - 1), At(r, c, i), At(r, c, i + 1), At(r, c, i + 2), pos % 4)

Make ==
  /\ Len(rs) < 2
  /\ \E n \in Pick(1..MaxLen), ch \in Pick(1..2), v \in Pick(0..99), loop \in Pick({ TRUE, TRUE, FALSE }) :
     LET r == [ s |-> TLCEval([ c \in 1..ch |-> TLCEval([ i \in 1..n |-> Val(v + c, i) ]) ]), loop |-> loop, pos |-> 4 ]
     IN rs' = Append(rs, r) /\ Do([ a |-> "make", s |-> r.s, loop |-> loop ])
Speed(v, d, i) == Max(0, v + (i * d))
Play ==
  /\ rs # << >>
  /\ \E k \in Pick(DOMAIN rs), n \in Pick(Plays), v \in Pick(Speeds), d \in Pick({ 0, 0, 0, 1, 0 - 1, 3 }) :
     LET r == rs[k]
         pos == TLCEval([ i \in 1..n |-> (i * v) + (d * ((i * (i - 1)) \div 2)) ])  \* the speed changes by d each sample
     IN /\ n * Abs(d) <= 300 /\ (v + (d * n)) >= 0   \* (negative speeds: see Back)
        /\ rs' = [ rs EXCEPT ![k].pos = @ + pos[n] ]
        /\ Do([ a |-> "play", k |-> k - 1, n |-> n, v |-> v, d |-> d,
                x |-> TLCEval([ c \in DOMAIN r.s |-> TLCEval([ i \in 1..n |-> Out(r, c, r.pos + pos[i]) ]) ]) ])
\* A negative speed does not move.
Back ==
  /\ rs # << >>
  /\ \E k \in Pick(DOMAIN rs), n \in Pick({ 1, 3 }), v \in Pick({ 0 - 8, 0 - 1 }) :
     LET r == rs[k] IN
     /\ rs' = rs
     /\ Do([ a |-> "play", k |-> k - 1, n |-> n, v |-> v, d |-> 0,
             x |-> [ c \in DOMAIN r.s |-> TLCEval([ i \in 1..n |-> Out(r, c, r.pos) ]) ] ])
Reset ==
  /\ rs # << >>
  /\ \E k \in Pick(DOMAIN rs) : rs' = [ rs EXCEPT ![k].pos = 4 ] /\ Do([ a |-> "reset", k |-> k - 1 ])
Clone ==
  /\ Len(rs) = 1 /\ rs' = Append(rs, rs[1]) /\ Do([ a |-> "clone" ])
Drop ==
  /\ Len(rs) = 2
  /\ \E k \in Pick(1..2) : rs' = RemoveAt(rs, k) /\ Do([ a |-> "drop", k |-> k - 1 ])

Init == rs = << >> /\ hist = << >>
Next == Make \/ Play \/ Play \/ Play \/ Back \/ Reset \/ Clone \/ Drop
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Start == \A k \in DOMAIN rs : rs[k].pos >= 4
\* At whole positions the stream itself comes out; the interpolation is continuous.
Interpolates ==
  \A a, b, c, d \in { 0 - 2, 0, 1, 5 } : Spline(a, b, c, d, 0) = 128 * b /\ Spline(a, b, c, d, 4) = 128 * c
Forward == [][ \A k \in DOMAIN rs : k \in DOMAIN rs' /\ rs'[k].s = rs[k].s /\ Len(rs) = Len(rs') => rs'[k].pos >= rs[k].pos \/ rs'[k].pos = 4 ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
