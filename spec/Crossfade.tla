----------------------------- MODULE Crossfade -----------------------------
(***************************************************************************)
(* Replacing a running unit with a crossfade, in three carriers:            *)
(*   slot  a slot: updates go through a queue to the rendering side         *)
(*   net   a node of a network                                              *)
(*   rt    a node of a network with frontend and backend                    *)
(*                                                                          *)
(* A place holds the unit that plays (cur), the unit being faded in (nxt)   *)
(* and the unit that comes after it (lat).  Unit u at its k-th sample is    *)
(* written (u, k); unit 0 is silence.  What is heard at one sample is a     *)
(* sequence of terms << u, k, r, a, b >>: unit u at sample k, running at    *)
(* rate r, times the fade curve at a/b (b = 0: full).                       *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Mode, Lens, Sizes, Rates, Depth, Sim,
          Soaks   \* lengths of long runs of updates (empty: none)

VARIABLES s,      \* the rendering side: [cur, nxt, lat, pos]
          q,      \* updates on their way to it
          fu,     \* rt: the frontend's copy of the unit, and whether it is fresh
          fq,     \* rt: crossfades not yet committed
          rate,   \* current sample rate: samples per unit of time
          brate,  \* rt: the rate the backend is at
          made, hist
vars == << s, q, fu, fq, rate, brate, made, hist >>

Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S

None == << >>
Unit(u) == [ u |-> u, k |-> 0 ]
\* An edit: new unit, fade length in units of time, curve.
Edit(u, len, ease) == [ unit |-> Unit(u), len |-> len, ease |-> ease ]

-----------------------------------------------------------------------------
\* While a fade is under way only the most recent further update is kept.
Enqueue(p, e) ==
  IF p.nxt # None THEN [ p EXCEPT !.lat = << e >> ]
  ELSE [ p EXCEPT !.nxt = << e >>, !.pos = 0 ]
RECURSIVE EnqueueAll(_, _)
EnqueueAll(p, es) == IF es = << >> THEN p ELSE EnqueueAll(Enqueue(p, Head(es)), Tail(es))

\* A kept update starts when the fade has ended, at the next rendering call.
Promote(p) == IF p.nxt = None /\ p.lat # None THEN [ p EXCEPT !.nxt = p.lat, !.lat = None, !.pos = 0 ] ELSE p

Bump(e) == [ e EXCEPT !.unit.k = @ + 1 ]
RECURSIVE Samples(_, _, _)
Samples(p, n, r) ==
  IF n = 0 THEN [ p |-> p, out |-> << >> ]
  ELSE IF p.nxt = None
    THEN LET x == Samples([ p EXCEPT !.cur.k = @ + 1 ], n - 1, r)
         IN  [ p |-> x.p, out |-> << << << p.cur.u, p.cur.k, r, 0, 0, "smooth" >> >> >> \o x.out ]
    ELSE LET e == p.nxt[1]
             len == e.len * r
             here == << << p.cur.u, p.cur.k, r, len - p.pos, len, e.ease >>, << e.unit.u, e.unit.k, r, p.pos, len, e.ease >> >>
             over == p.pos + 1 >= len
             p2 == IF over THEN [ p EXCEPT !.cur = Bump(e).unit, !.nxt = None, !.pos = 0 ]
                   ELSE [ p EXCEPT !.cur.k = @ + 1, !.nxt = << Bump(e) >>, !.pos = @ + 1 ]
             x == Samples(p2, n - 1, r)
         IN  [ p |-> x.p, out |-> << here >> \o x.out ]

\* One rendering call of n samples.
Call(p, n, r) == LET x == Samples(p, n, r) IN [ p |-> Promote(x.p), out |-> x.out ]

Fresh0(e) == [ e EXCEPT !.unit.k = 0 ]
ResetAll(p) == [ p EXCEPT !.cur.k = 0, !.nxt = [ i \in 1..Len(@) |-> Fresh0(@[i]) ], !.lat = [ i \in 1..Len(@) |-> Fresh0(@[i]) ] ]
Newest(p) == IF p.lat # None THEN p.lat[1].unit ELSE IF p.nxt # None THEN p.nxt[1].unit ELSE p.cur
\* A slot jumps to its newest unit on reset.
Jump(p) == [ cur |-> [ Newest(p) EXCEPT !.k = 0 ], nxt |-> None, lat |-> None, pos |-> 0 ]
\* A node given a new unit outright plays that.
Take(u) == [ cur |-> u, nxt |-> None, lat |-> None, pos |-> 0 ]

\* Delivery of what is in the queue.  rt: a commit brings a fresh unit or keeps
\* what the backend has, then its crossfades.
RECURSIVE Deliver(_, _)
Deliver(p, ms) ==
  IF ms = << >> THEN p
  ELSE LET m == Head(ms)
           h == IF Mode = "slot" THEN Enqueue(p, m)
                ELSE EnqueueAll(IF m.fresh THEN Take(m.unit) ELSE p, m.edits)
       IN  Deliver(h, Tail(ms))
RECURSIVE RateAfter(_, _)
RateAfter(r, ms) == IF ms = << >> THEN r ELSE RateAfter(Head(ms).rate, Tail(ms))

-----------------------------------------------------------------------------
Init == \E first \in { 0, 1 } :   \* 0: a node faded in from silence (networks only)
  /\ first = 0 => Mode = "net"
  /\ \E len \in Lens, ease \in { "smooth", "power" } :
     /\ s = IF first = 0 THEN Enqueue(Take(Unit(0)), Edit(1, len, ease)) ELSE Take(Unit(1))
     /\ hist = << [ a |-> "init", fadein |-> first = 0, len |-> len, ease |-> ease ] >>
  /\ q = << >> /\ fu = [ unit |-> Unit(1), fresh |-> FALSE ] /\ fq = << >> /\ rate = 1 /\ brate = 1 /\ made = 1

More == Len(hist) < Depth
Log(r) == hist' = Append(hist, r)

Fade ==
  /\ More /\ made' = made + 1
  /\ \E len \in Pick(Lens), ease \in Pick({ "smooth", "power" }) :
       LET e == Edit(made + 1, len, ease) IN
       /\ CASE Mode = "slot" -> q' = Append(q, e) /\ UNCHANGED << s, fq >>
            [] Mode = "net"  -> s' = Enqueue(s, e) /\ UNCHANGED << q, fq >>
            [] Mode = "rt"   -> fq' = Append(fq, e) /\ UNCHANGED << s, q >>
       /\ Log([ a |-> "fade", u |-> made + 1, len |-> len, ease |-> ease ])
  /\ UNCHANGED << fu, rate, brate >>

Replace ==
  /\ More /\ Mode # "slot" /\ made' = made + 1
  /\ CASE Mode = "net" -> s' = Take(Unit(made + 1)) /\ UNCHANGED << fu, fq >>
       [] Mode = "rt"  -> fu' = [ unit |-> Unit(made + 1), fresh |-> TRUE ] /\ fq' = << >> /\ UNCHANGED s
  /\ Log([ a |-> "replace", u |-> made + 1 ])
  /\ UNCHANGED << q, rate, brate >>

Commit ==
  /\ More /\ Mode = "rt"
  /\ q' = Append(q, [ fresh |-> fu.fresh, unit |-> fu.unit, edits |-> fq, rate |-> rate ])
  /\ fu' = [ unit |-> IF fq = << >> THEN fu.unit ELSE fq[Len(fq)].unit, fresh |-> FALSE ]
  /\ fq' = << >>
  /\ Log([ a |-> "commit" ])
  /\ UNCHANGED << s, rate, brate, made >>

\* Reset of the slot, of the network, or of the frontend (to be committed).
Reset ==
  /\ More
  /\ CASE Mode = "slot" -> s' = Jump(Deliver(s, q)) /\ q' = << >> /\ UNCHANGED fu
       [] Mode = "net"  -> s' = ResetAll(s) /\ UNCHANGED << q, fu >>
       [] Mode = "rt"   -> fu' = [ unit |-> [ fu.unit EXCEPT !.k = 0 ], fresh |-> TRUE ] /\ UNCHANGED << s, q >>
  /\ Log([ a |-> "reset" ])
  /\ UNCHANGED << fq, rate, brate, made >>

\* Reset of the backend.
BackReset ==
  /\ More /\ Mode = "rt"
  /\ s' = ResetAll(Deliver(s, q)) /\ brate' = RateAfter(brate, q) /\ q' = << >>
  /\ Log([ a |-> "breset" ])
  /\ UNCHANGED << fu, fq, rate, made >>

\* Change of sample rate: fades keep their phase and take their time.
Rescale(p, r1, r2) == [ p EXCEPT !.pos = IF p.nxt = None THEN @ ELSE (@ * r2) \div r1 ]
SetRate ==
  /\ More /\ Rates
  /\ \E r \in Pick({ 1, 2, 4 }) :
       /\ r # rate
       /\ IF Mode = "rt"
          THEN /\ fu' = [ fu EXCEPT !.fresh = TRUE ] /\ UNCHANGED << s, q, brate >>
          ELSE LET p == Deliver(s, q) IN
               /\ (p.nxt # None => (p.pos * r) % rate = 0)
               /\ s' = Rescale(p, rate, r) /\ q' = << >> /\ brate' = r /\ UNCHANGED fu
       /\ rate' = r
       /\ Log([ a |-> "rate", r |-> r ])
  /\ UNCHANGED << fq, made >>

Play ==
  /\ More
  /\ \E n \in Pick(Sizes) :
       LET r == IF Mode = "rt" THEN RateAfter(brate, q) ELSE rate
           x == Call(Deliver(s, q), n, r) IN
       /\ s' = x.p /\ q' = << >> /\ brate' = r
       /\ Log([ a |-> "play", n |-> n, x |-> x.out ])
  /\ UNCHANGED << fu, fq, rate, made >>

\* A long session: n times a one-sample crossfade (committed) and a call of two
\* samples.  All earlier units have come and gone.
Soak ==
  /\ More /\ Soaks # {} /\ s.nxt = None /\ q = << >> /\ fq = << >> /\ rate = brate /\ ~fu.fresh
  /\ \E n \in Pick(Soaks) :
       /\ s' = Take([ u |-> made + n, k |-> 2 ])
       /\ fu' = IF Mode = "rt" THEN [ fu EXCEPT !.unit = Unit(made + n) ] ELSE fu
       /\ made' = made + n
       /\ Log([ a |-> "soak", n |-> n, u |-> made ])
  /\ UNCHANGED << q, fq, rate, brate >>

Next == Soak \/ Fade \/ Fade \/ Replace \/ Commit \/ Commit \/ Reset \/ BackReset \/ SetRate \/ Play \/ Play \/ Play \/ Play
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Nothing waits behind a place that is not fading.
Waiting == s.lat # None => s.nxt # None
\* The phase of a fade lies inside it.
Phase == s.nxt # None => s.pos < s.nxt[1].len * (IF Mode = "rt" THEN brate ELSE rate)
\* Units play in the order they were made: what plays never goes back.
Order == /\ s.nxt # None => s.nxt[1].unit.u > s.cur.u
         /\ s.lat # None => s.lat[1].unit.u > s.nxt[1].unit.u
\* Complementary weights: at each sample the two weights' arguments add to one.
LastOut == IF hist[Len(hist)].a = "play" THEN hist[Len(hist)].x ELSE << >>
Weights == \A i \in 1..Len(LastOut) :
             LET x == LastOut[i] IN
               \/ Len(x) = 1 /\ x[1][5] = 0
               \/ Len(x) = 2 /\ x[1][4] + x[2][4] = x[1][5] /\ x[1][5] = x[2][5]
Newer == [][ s'.cur.u >= s.cur.u ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
