------------------------------- MODULE Wave --------------------------------
(***************************************************************************)
(* Waves: multichannel sample arrays, their editing, rendering, filtering   *)
(* and playback.                                                            *)
(*                                                                          *)
(* A wave is its rate and its channels.  Everything is exact: samples are   *)
(* integers (fades are rationals).  Processors and players have memory:     *)
(* rendering goes on where they were.                                       *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS MaxCh, MaxLen, Long, Depth, Sim

VARIABLES ws,     \* waves: [ r |-> rate, c |-> sequence of channels, each a sequence of samples ]
          ps,     \* players: [ s |-> samples, from, to, loop (-1: none), at ]
          fs,     \* processors: [ k |-> kind, m |-> memory ]
          hist
vars == << ws, ps, fs, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
MaxWaves == 3

Chan(w) == Len(w.c)
Length(w) == IF w.c = << >> THEN 0 ELSE Len(w.c[1])
\* Some samples.
Val(n, i) == ((n * 7 + i * 13 + ((n * i) % 11)) % 19) - 9
Some(n, len) == TLCEval([ i \in 1..len |-> Val(n, i) ])
Zeros(len) == [ i \in 1..len |-> 0 ]
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Peak(w) == IF w.c = << >> \/ w.c[1] = << >> THEN 0
           ELSE SetMax(UNION { { Abs(w.c[c][i]) : i \in DOMAIN w.c[c] } : c \in 1..Chan(w) })
\* Quarters of a sample, rounded to the nearest (no ties).
Round4(q) == (q + 2) \div 4

\* What is seen of a wave.
See(w) == [ r |-> w.r, n |-> Length(w), peak |-> Peak(w), c |-> w.c ]
Put(k, w) == ws' = [ ws EXCEPT ![k] = w ] /\ UNCHANGED << ps, fs >>
Edit(k, w, l) == Put(k, w) /\ Do([ k |-> k - 1, x |-> See(w) ] @@ l)

-----------------------------------------------------------------------------
New ==
  /\ Len(ws) < MaxWaves
  /\ \E how \in Pick({ "new", "cap", "zero", "samples" }), c \in Pick(0..MaxCh), n \in Pick(0..MaxLen), j \in Pick({ 0 - 1, 0, 1 }), r \in Pick({ 1, 8, 44100 }), v \in Pick(0..99) :
     LET len == IF how = "zero" /\ c > 0 THEN Round4(Max(0, 4 * n + j)) ELSE 0
         w == [ r |-> r, c |-> IF how = "samples" THEN << Some(v, n) >>
                               ELSE TLCEval([ i \in 1..c |-> Zeros(len) ]) ]
     IN /\ ws' = Append(ws, w) /\ UNCHANGED << ps, fs >>
        /\ Do([ a |-> "make", how |-> how, c |-> c, n |-> n, q |-> IF c = 0 THEN 0 ELSE Max(0, 4 * n + j), r |-> r,
                s |-> IF how = "samples" THEN w.c[1] ELSE << >>, x |-> See(w) ])
Clone ==
  /\ Len(ws) < MaxWaves
  /\ \E k \in Pick(DOMAIN ws) : ws' = Append(ws, ws[k]) /\ Do([ a |-> "clone", k |-> k - 1, x |-> See(ws[k]) ]) /\ UNCHANGED << ps, fs >>
Drop ==
  /\ Len(ws) > 1
  /\ \E k \in Pick(DOMAIN ws) : ws' = RemoveAt(ws, k) /\ Do([ a |-> "drop", k |-> k - 1 ]) /\ UNCHANGED << ps, fs >>

AddChannel ==
  \E k \in Pick(DOMAIN ws), n \in Pick(0..MaxLen), v \in Pick(0..99), push \in Pick({ TRUE, FALSE }) :
    LET w == ws[k]  s == Some(v, IF w.c = << >> THEN n ELSE Length(w)) IN
    /\ Chan(w) < MaxCh
    /\ \E c \in (IF push THEN { Chan(w) + 1 } ELSE Pick(1..Chan(w) + 1)) :
         Edit(k, [ w EXCEPT !.c = InsertAt(@, c, s) ], [ a |-> IF push THEN "push_channel" ELSE "insert_channel", c |-> c - 1, s |-> s ])
RemoveChannel ==
  \E k \in Pick(DOMAIN ws) :
    LET w == ws[k] IN
    /\ w.c # << >>
    /\ \E c \in Pick(1..Chan(w)) : Edit(k, [ w EXCEPT !.c = RemoveAt(@, c) ], [ a |-> "remove_channel", c |-> c - 1, s |-> w.c[c] ])
MixChannel ==
  \E k \in Pick(DOMAIN ws), n \in Pick(0..MaxLen), v \in Pick(0..99) :
    LET w == ws[k]  s == Some(v, n) IN
    /\ w.c # << >>
    /\ \E c \in Pick(1..Chan(w)), o \in Pick((0 - n - 2)..(Length(w) + 2)) :
         Edit(k, [ w EXCEPT !.c[c] = TLCEval([ i \in DOMAIN @ |-> @[i] + At(s, i - o) ]) ],
              [ a |-> "mix_channel", c |-> c - 1, o |-> o, s |-> s ])
AppendWave ==
  \E k \in Pick(DOMAIN ws), j \in Pick(DOMAIN ws) :
    LET w == ws[k] IN
    /\ j # k /\ w.c # << >> /\ Chan(w) = Chan(ws[j]) /\ Length(w) + Length(ws[j]) <= 2 * MaxLen
    /\ Edit(k, [ w EXCEPT !.c = [ c \in DOMAIN @ |-> @[c] \o ws[j].c[c] ] ], [ a |-> "append", j |-> j - 1 ])
Sample ==
  \E k \in Pick(DOMAIN ws), how \in Pick({ "set", "mix", "slot" }), v \in Pick((0 - 9)..9) :
    LET w == ws[k] IN
    /\ Length(w) > 0
    /\ \E c \in Pick(1..Chan(w)), i \in Pick(1..Length(w)) :
         Edit(k, [ w EXCEPT !.c[c][i] = IF how = "mix" THEN @ + v ELSE v ], [ a |-> "sample", how |-> how, c |-> c - 1, i |-> i - 1, v |-> v ])
PushFrame ==
  \E k \in Pick(DOMAIN ws), one \in Pick({ TRUE, FALSE }), v \in Pick(0..99) :
    LET w == ws[k]  f == [ c \in 1..Chan(w) |-> Val(v, IF one THEN 1 ELSE c) ] IN
    /\ Length(w) < MaxLen
    /\ Chan(w) > 0 \/ one
    /\ Edit(k, [ w EXCEPT !.c = [ c \in DOMAIN @ |-> Append(@[c], f[c]) ] ], [ a |-> "push", f |-> IF one THEN << Val(v, 1) >> ELSE f ])
Resize ==
  \E k \in Pick(DOMAIN ws), n \in Pick(0..MaxLen) :
    /\ ws[k].c # << >>
    /\ Edit(k, [ ws[k] EXCEPT !.c = [ c \in DOMAIN @ |-> TLCEval([ i \in 1..n |-> At(@[c], i) ]) ] ], [ a |-> "resize", n |-> n ])
\* The span may lie partly or wholly outside the wave. -1 stands for the greatest length there is.
Retain ==
  \E k \in Pick(DOMAIN ws), n \in Pick((0..MaxLen + 2) \cup { 0 - 1 }) :
    LET w == ws[k] IN
    /\ w.c # << >>
    /\ \E o \in Pick((0 - MaxLen)..(Length(w) + 3)) :
         LET lo == Max(o, 0) + 1
             hi == IF n < 0 THEN Length(w) ELSE Min(Length(w), o + n)
         IN Edit(k, [ w EXCEPT !.c = [ c \in DOMAIN @ |-> SubSeq(@[c], lo, hi) ] ], [ a |-> "retain", o |-> o, n |-> n ])
Amplify ==
  \E k \in Pick(DOMAIN ws), v \in Pick({ 0 - 1, 0, 2, 3 }) :
    /\ Peak(ws[k]) < 1000
    /\ Edit(k, [ ws[k] EXCEPT !.c = [ c \in DOMAIN @ |-> TLCEval([ i \in DOMAIN @[c] |-> @[c][i] * v ]) ] ], [ a |-> "amplify", v |-> v ])
SetRate ==
  \E k \in Pick(DOMAIN ws), r \in Pick({ 1, 8, 1000, 44100 }) : Edit(k, [ ws[k] EXCEPT !.r = r ], [ a |-> "rate", r |-> r ])

-----------------------------------------------------------------------------
(* Results that are not integers are looked at on a copy. *)
Normalize ==
  \E k \in Pick(DOMAIN ws) : Do([ a |-> "normalize", k |-> k - 1, w |-> See(ws[k]) ]) /\ UNCHANGED << ws, ps, fs >>
\* The easing curve at x / d, times d^5.
Smooth(x, d) == x * x * x * ((10 * d * d) - (15 * x * d) + (6 * x * x))
FadeN(w, q) == Min(Length(w), Round4(q))
\* Fade in of n samples: the factors of samples 1..len, times (n + 1)^5.
In(n, len) == [ i \in 1..len |-> Smooth(IF i <= n THEN i ELSE n + 1, n + 1) ]
Out(n, len) == [ i \in 1..len |-> Smooth(IF i > len - n THEN len - i + 1 ELSE n + 1, n + 1) ]
Fade ==
  \E k \in Pick({ j \in DOMAIN ws : Length(ws[j]) <= MaxLen } \cup { 0 }), how \in Pick({ "in", "out", "both" }), m \in Pick(0..13), j \in Pick({ 0 - 1, 0, 1 }) :
    /\ k > 0
    /\ LET w == ws[k]
           n == FadeN(w, Max(0, 4 * m + j))
       IN /\ n <= 11
          /\ Do([ a |-> "fade", k |-> k - 1, how |-> how, q |-> Max(0, 4 * m + j), d |-> (n + 1) * (n + 1) * (n + 1) * (n + 1) * (n + 1),
               in |-> TLCEval(In(n, Length(w))), out |-> TLCEval(Out(n, Length(w))), w |-> See(w) ])
    /\ UNCHANGED << ws, ps, fs >>

-----------------------------------------------------------------------------
(* Playback *)
\* Sample and next position.
RECURSIVE Play(_, _)
Play(p, n) ==
  IF n = 0 THEN << p, << >> >>
  ELSE LET on == p.at < p.to
           y == IF on THEN p.s[p.at + 1] ELSE 0
           nx == IF ~on THEN p.at ELSE IF p.at + 1 = p.to /\ p.loop >= 0 THEN p.loop ELSE p.at + 1
           z == TLCEval(Play([ p EXCEPT !.at = nx ], n - 1))
       IN  << z[1], << y >> \o z[2] >>
Player ==
  /\ Len(ps) < 2
  /\ \E k \in Pick(DOMAIN ws) :
     LET w == ws[k]  n == Length(w) IN
     /\ w.c # << >>
     /\ \E c \in Pick(1..Chan(w)), whole \in Pick({ TRUE, FALSE }), f \in Pick(0..n + 1), t \in Pick(0..n), l \in Pick((0 - 1)..n + 1) :
          LET from == IF whole THEN 0 ELSE f
              to == IF whole THEN n ELSE t
              p == [ s |-> w.c[c], from |-> from, to |-> to, loop |-> l, at |-> from ]
          IN /\ ps' = Append(ps, p) /\ UNCHANGED << ws, fs >>
             /\ Do([ a |-> "player", k |-> k - 1, c |-> c - 1, whole |-> whole, f |-> from, t |-> to, l |-> l ])
PlayP ==
  \E n \in Pick({ 1, 2, 5, 9, 64, Long }) :
    /\ ps # << >>
    /\ \E k \in Pick(DOMAIN ps) :
         LET z == TLCEval(Play(ps[k], n))
         IN /\ ps' = [ ps EXCEPT ![k] = z[1] ] /\ UNCHANGED << ws, fs >>
            /\ Do([ a |-> "play", p |-> k - 1, n |-> n, x |-> z[2] ])
ResetP ==
  /\ ps # << >>
  /\ \E k \in Pick(DOMAIN ps), drop \in Pick({ TRUE, FALSE }) :
       /\ ps' = IF drop THEN RemoveAt(ps, k) ELSE [ ps EXCEPT ![k].at = ps[k].from ]
       /\ Do([ a |-> IF drop THEN "unplayer" ELSE "reset", p |-> k - 1 ]) /\ UNCHANGED << ws, fs >>
\* Rendering takes up the player where it is.
Render ==
  \E q \in Pick({ 0, 1, 3, 4, 5, 28, 33, 4 * 63 + 1, 4 * 64, 4 * 65 - 1, 4 * Long + 1 }), r \in Pick({ 1, 8, 44100 }) :
    /\ ps # << >>
    /\ \E k \in Pick(DOMAIN ps), j \in Pick(DOMAIN ws), st \in Pick({ FALSE, TRUE }) :
         LET z == TLCEval(Play(ps[k], Round4(q)))
             w == [ r |-> r, c |-> IF st THEN << z[2], z[2] >> ELSE << z[2] >> ]
         IN /\ ps' = [ ps EXCEPT ![k] = z[1] ] /\ UNCHANGED << ws, fs >>
            /\ Do([ a |-> "render", p |-> k - 1, st |-> st, q |-> q, r |-> r, x |-> See(w) ])

-----------------------------------------------------------------------------
(* Filtering.  tick: one sample of delay; dup: undelayed and delayed copies; swap: channels exchanged,
   the first one delayed; acc: y = x1 + previous x2 *)
InOf(k) == IF k \in { "tick", "dup" } THEN 1 ELSE 2
Proc ==
  /\ Len(fs) < 2
  /\ \E k \in Pick({ "tick", "dup", "swap", "acc" }) :
       fs' = Append(fs, [ k |-> k, m |-> 0 ]) /\ Do([ a |-> "proc", k |-> k ]) /\ UNCHANGED << ws, ps >>
Lag(m, s) == IF s = << >> THEN << >> ELSE << m >> \o SubSeq(s, 1, Len(s) - 1)
Last(m, s) == IF s = << >> THEN m ELSE s[Len(s)]
Run(f, c) ==
  CASE f.k = "tick" -> << Last(f.m, c[1]), << Lag(f.m, c[1]) >> >>
    [] f.k = "dup" -> << Last(f.m, c[1]), << c[1], Lag(f.m, c[1]) >> >>
    [] f.k = "swap" -> << Last(f.m, c[2]), << Lag(f.m, c[2]), c[1] >> >>
    [] f.k = "acc" -> << Last(f.m, c[2]), << LET l == Lag(f.m, c[2]) IN TLCEval([ i \in DOMAIN c[1] |-> c[1][i] + l[i] ]) >> >>
Filter ==
  \E q \in Pick({ 0, 1, 3, 4, 5, 28, 33, 4 * 63 + 1, 4 * 64, 4 * 65 - 1, 4 * Long + 1, 0 - 1, 0 - 2 }), long \in Pick({ TRUE, FALSE, FALSE }) :
    /\ fs # << >>
    /\ \E k \in Pick(DOMAIN ws), f \in Pick(DOMAIN fs) :
         LET w == ws[k]
             qq == IF q = 0 - 1 THEN 4 * Length(w) ELSE IF q = 0 - 2 THEN 4 * Length(w) + 9 ELSE q
             n == Round4(qq)
             z == TLCEval(Run(fs[f], [ c \in DOMAIN w.c |-> TLCEval([ i \in 1..n |-> At(w.c[c], i) ]) ]))
         IN /\ Chan(w) = InOf(fs[f].k)
            /\ fs' = [ fs EXCEPT ![f].m = z[1] ] /\ UNCHANGED << ws, ps >>
            /\ Do([ a |-> "filter", k |-> k - 1, f |-> f - 1, q |-> qq, x |-> See([ r |-> w.r, c |-> z[2] ]) ])
\* A wave longer than a block.
Enlarge ==
  \E k \in Pick(DOMAIN ws), n \in Pick({ 63, 64, 65, 130 }), v \in Pick(0..99) :
    /\ ws[k].c # << >>
    /\ Edit(k, [ ws[k] EXCEPT !.c = [ c \in DOMAIN @ |-> Some(v + c, n) ] ], [ a |-> "replace" ])

Init == ws = << [ r |-> 44100, c |-> << >> ] >> /\ ps = << >> /\ fs = << >> /\ hist = << >>
Next == \/ New \/ New \/ Clone \/ Drop \/ AddChannel \/ AddChannel \/ RemoveChannel \/ MixChannel \/ MixChannel \/ AppendWave \/ Sample
        \/ PushFrame \/ PushFrame \/ Resize \/ Retain \/ Retain \/ Amplify \/ SetRate \/ Normalize \/ Fade \/ Fade
        \/ Player \/ Player \/ PlayP \/ PlayP \/ ResetP \/ Render \/ Proc \/ Filter \/ Filter \/ Enlarge
Spec == Init /\ [][Next]_vars
\* Players only.
NextPlay == \/ New \/ Enlarge \/ AddChannel \/ Player \/ PlayP \/ PlayP \/ PlayP \/ ResetP \/ Render
SpecPlay == Init /\ [][NextPlay]_vars

-----------------------------------------------------------------------------
Rectangular == \A k \in DOMAIN ws : \A c \in 1..Chan(ws[k]) : Len(ws[k].c[c]) = Length(ws[k])
\* Fades only make things quieter and do so monotonically.
FadesRise == \A n \in 0..11 : LET f == In(n, n + 1) IN \A i \in 1..n : f[i] < f[i + 1]
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
