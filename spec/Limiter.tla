------------------------------ MODULE Limiter ------------------------------
(***************************************************************************)
(* The look-ahead limiter: what may come out, given what went in.           *)
(*                                                                          *)
(* Amplitudes are in hundredths of full scale.  The output is the input     *)
(* delayed by the look-ahead times a gain common to all channels.  The gain *)
(* is at most one, exactly one as long as everything heard since the last   *)
(* reset, or lately, stayed below the threshold (full scale less the headroom of ten    *)
(* percent), never lower than needed for the loudest sound heard so far     *)
(* with headroom, and low enough that no output exceeds full scale.         *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Times, Rates, Plays, Depth, Sim

Base == 1024
VARIABLES u, rate, in, hist
vars == << u, rate, in, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)

Samples(a, r) == (2 * a * r + 8 * Base) \div (16 * Base)
D == Max(1, Samples(u.t, rate))

\* Input frames.
Level(s, t) ==
  CASE s % 4 = 0 -> 90
    [] s % 4 = 1 -> << 40, 90, 300, 90, 90, 1000 >>[((t \div (1 + s)) % 6) + 1]
    [] s % 4 = 2 -> << 10, 80000, 90, 0, 100, 200 >>[((t \div (3 + s)) % 6) + 1]
    [] OTHER -> << 0, 3000, 50 >>[((t \div 37) % 3) + 1]
Frame(s, t) ==
  [ c \in 1..u.c |-> ((((s * 31 + t * 17 + t * t * 5 + c * 29) % 201) - 100) * Level(s, t + 11 * c)) \div 100 ]

FrameMax(f) == LET A == { Abs(f[c]) : c \in DOMAIN f } IN CHOOSE a \in A : \A b \in A : b <= a
RECURSIVE Peaks(_, _, _, _, _)
\* For the frames of s, numbered from i + 1: the peak so far (p before) and the number
\* of the last frame above the threshold (l before, zero if there was none).
Peaks(s, i, p, l, acc) ==
  IF s = << >> THEN acc
  ELSE LET m == FrameMax(Head(s))
           q == Max(p, m)
           k == IF m > 90 THEN i + 1 ELSE l
       IN Peaks(Tail(s), i + 1, q, k, Append(acc, << q, k >>))
\* Time by which the gain has recovered from a sound: the look-ahead and four release times.
Recover == D + 4 * Max(1, Samples(u.t * u.e, rate)) + 16
Zero == [ c \in 1..u.c |-> 0 ]
\* Delayed frame and peak so far for each sample of a play.
Expect(all, from, h) ==
  LET pk == TLCEval(Peaks(SubSeq(all, from + 1, Len(all)), from, h[1], h[2], << >>))
  IN [ j \in 1..(Len(all) - from) |->
         LET i == from + j IN [ d |-> IF i > D THEN all[i - D] ELSE Zero, p |-> pk[j][1],
                                q |-> pk[j][2] = 0 \/ i - pk[j][2] > Recover ] ]
PeakOf == LET r == Peaks(in, 0, 0, 0, << << 0, 0 >> >>) IN r[Len(r)]

Begin ==
  /\ hist = << >>
  /\ \E t \in Pick(Times), e \in Pick({ 1, 2, 7 }), r \in Pick(Rates), c \in Pick(1..3) :
       /\ u' = [ t |-> t, e |-> e, c |-> c ] /\ rate' = r /\ in' = << >>
       /\ Do([ a |-> "make", t |-> t, e |-> e, c |-> c, r |-> r ])
On == hist # << >>
Play ==
  \E n \in Pick(Plays), s \in Pick(1..24) :
    LET f == TLCEval([ j \in 1..n |-> Frame(s, Len(in) + j) ])
        all == in \o f
    IN /\ in' = all
       /\ Do([ a |-> "play", in |-> f, lat |-> D, x |-> Expect(all, Len(in), PeakOf) ])
       /\ UNCHANGED << u, rate >>
Reset == in' = << >> /\ Do([ a |-> "reset" ]) /\ UNCHANGED << u, rate >>
Rate ==
  \E r \in Pick(Rates) : rate' = r /\ in' = << >> /\ Do([ a |-> "rate", r |-> r ]) /\ UNCHANGED u
Copy == Do([ a |-> "copy" ]) /\ UNCHANGED << u, rate, in >>
Init == u = [ t |-> 128, e |-> 1, c |-> 1 ] /\ rate = Base /\ in = << >> /\ hist = << >>
Next == Begin \/ (On /\ \E op \in Pick(1..8) :
          CASE op \in 1..5 -> Play [] op = 6 -> Reset [] op = 7 -> Rate [] op = 8 -> Copy)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Look-ahead is long enough for the limiting promise.
LongEnough == D >= 16
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
