----------------------------- MODULE Sequencer -----------------------------
(***************************************************************************)
(* The fundsp sequencer, and the same sequencer split into a frontend and   *)
(* a rendering backend joined by a message queue.                           *)
(*                                                                          *)
(* Time is counted in units; one rendered sample advances time by `step`    *)
(* units (the step changes with the sample rate).  An event owns a unit     *)
(* that is a stream of its own: sample k of event e is written [e, k].      *)
(* What the sequencer outputs at one sample is a sequence of terms, one per *)
(* sounding event, in order of creation:                                    *)
(*     << e, k, ik, in, ok, on >>                                           *)
(* sample k of event e times the fade-in curve at ik/in (in = 0: no fade)   *)
(* times the fade-out curve at ok/on.  The output sample is the sum.        *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS
  Replay,       \* whether events are replayed after a reset
  Backend,      \* TRUE: frontend/backend pair; FALSE: plain sequencer
  Rates,        \* TRUE: sample rate changes are allowed
  MaxEvents,
  Starts,       \* start times relative to now
  Durs,         \* durations (Inf allowed)
  Fades,        \* fade lengths
  Plays,        \* numbers of samples rendered by one step
  Ends,         \* new end times relative to now, for edits
  Eases,        \* fade curves in use
  Soaks,        \* lengths of long runs of short events (empty: none)
  Depth, Sim    \* length of generated behaviours; TRUE: random choice

VARIABLES
  ev,     \* events in order of creation
  time,   \* stream time
  step,   \* duration of one sample
  q,      \* messages sent by the frontend and not yet seen by the backend
  fev,    \* number of events created by the frontend (= Len(ev) + queued pushes)
  hist    \* the behaviour so far, for replay into the implementation

vars == << ev, time, step, q, fev, hist >>

Inf == 1000000
BothEases == { "smooth", "power" }
SmoothOnly == { "smooth" }

Plus(t, d) == IF d = Inf THEN Inf ELSE t + d

\* In simulation one argument tuple is drawn at random; in exhaustive runs all
\* are tried.  (Mentioning hist keeps TLC from evaluating the choice only once.)
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S

-----------------------------------------------------------------------------
(* Meaning of the sequencer *)

Sounding(e, t) == e.alive /\ e.st <= t /\ t < e.en

Term(i, e, t) ==
  LET fi == IF e.fi > 0 /\ t < e.st + e.fi THEN << t - e.st, e.fi >> ELSE << 0, 0 >>
      fo == IF e.en < Inf /\ e.fo > 0 /\ t > e.en - e.fo THEN << e.en - t, e.fo >> ELSE << 0, 0 >>
  IN  << i, e.pos, fi[1], fi[2], fo[1], fo[2] >>

\* Terms sounding at time t, in order of creation.
RECURSIVE TermsFrom(_, _, _)
TermsFrom(es, i, t) ==
  IF i > Len(es) THEN << >>
  ELSE (IF Sounding(es[i], t) THEN << Term(i, es[i], t) >> ELSE << >>) \o TermsFrom(es, i + 1, t)

\* After one sample at time t: the units of sounding events have advanced;
\* without replay, events that are over are forgotten.
Advance(es, t) == [ i \in 1..Len(es) |-> IF Sounding(es[i], t) THEN [es[i] EXCEPT !.pos = @ + 1] ELSE es[i] ]

RECURSIVE Render(_, _, _, _)
Render(es, t, dt, n) ==
  IF n = 0 THEN [ es |-> es, t |-> t, out |-> << >> ]
  ELSE LET r == Render(Advance(es, t), t + dt, dt, n - 1)
       IN  [ es |-> r.es, t |-> r.t, out |-> << TermsFrom(es, 1, t) >> \o r.out ]

\* An edit moves the end of exactly one event.  An event that has not sounded
\* yet cannot be given an end that has already passed.
ApplyEdit(es, i, en, fo) ==
  [ es EXCEPT ![i].en = en, ![i].fo = fo ]

ResetEvents(es) == [ i \in 1..Len(es) |-> [es[i] EXCEPT !.pos = 0, !.alive = Replay /\ es[i].alive] ]

\* Effect of one call on (es, t).
Apply(es, t, m) ==
  CASE m.a = "push"  -> [ es |-> Append(es, m.e), t |-> t ]
    [] m.a = "pushr" -> [ es |-> Append(es, [m.e EXCEPT !.st = t + @, !.en = Plus(t, @)]), t |-> t ]
    [] m.a = "edit"  -> [ es |-> ApplyEdit(es, m.id, m.en, m.fo), t |-> t ]
    [] m.a = "editr" -> [ es |-> ApplyEdit(es, m.id, t + m.en, m.fo), t |-> t ]
    [] m.a = "reset" -> [ es |-> ResetEvents(es), t |-> 0 ]

RECURSIVE ApplyAll(_, _, _)
ApplyAll(es, t, ms) ==
  IF ms = << >> THEN [ es |-> es, t |-> t ]
  ELSE LET r == Apply(es, t, Head(ms)) IN ApplyAll(r.es, r.t, Tail(ms))

\* The state as it will be once the queue has been applied: what the caller of
\* the frontend may assume about the events.
Seen == ApplyAll(ev, time, q)

-----------------------------------------------------------------------------
Init ==
  /\ ev = << >> /\ time = 0 /\ step = 1 /\ q = << >> /\ fev = 0
  /\ hist = << >>

Log(r) == hist' = Append(hist, r)

\* With changing sample rates everything is kept on the grid of the slower rate,
\* so that no time falls exactly halfway between two samples.
OnGrid == Rates => Seen.t % 2 = 0

\* A call either takes effect at once or is queued for the backend.
Call(m, l) ==
  /\ Len(hist) < Depth
  /\ IF Backend
     THEN q' = Append(q, m) /\ UNCHANGED << ev, time >>
     ELSE LET r == Apply(ev, time, m) IN ev' = r.es /\ time' = r.t /\ UNCHANGED q
  /\ UNCHANGED step
  /\ Log(l)

NewEvent(st, d, fi, fo, ease) ==
  [ st |-> st, en |-> Plus(st, d), fi |-> fi, fo |-> fo, ease |-> ease, pos |-> 0, alive |-> TRUE ]

Shapes == { s \in Durs \X Fades \X Fades \X Eases : s[2] <= s[1] /\ s[3] <= s[1] }

Push ==
  /\ fev < MaxEvents /\ fev' = fev + 1 /\ OnGrid
  /\ \E d \in Pick(Starts), s \in Pick(Shapes) :
       LET st == Seen.t + d
           e == NewEvent(st, s[1], s[2], s[3], s[4])
       IN  Call([ a |-> "push", e |-> e ],
                [ a |-> "push", st |-> st, en |-> e.en, fi |-> e.fi, fo |-> e.fo, ease |-> e.ease ])

PushRelative ==
  /\ fev < MaxEvents /\ fev' = fev + 1 /\ OnGrid
  /\ \E d \in Pick({ x \in Starts : x >= 0 }), s \in Pick(Shapes) :
       LET e == NewEvent(d, s[1], s[2], s[3], s[4])
       IN  Call([ a |-> "pushr", e |-> e ],
                [ a |-> "pushr", st |-> d, en |-> e.en, fi |-> e.fi, fo |-> e.fo, ease |-> e.ease ])

\* Edits may only shorten.  With replay, edits to events that are already over
\* are left unspecified; an event that has not sounded yet is not given an end
\* that lies in the past.
MayEdit(s, i, en) ==
  /\ en <= s.es[i].en
  /\ (s.es[i].pos = 0 => en >= s.t)
  /\ (Replay => s.t < s.es[i].en)
  /\ (~s.es[i].alive => ~Replay)

EditAbs ==
  LET s == Seen IN
  /\ fev > 0 /\ UNCHANGED fev /\ OnGrid
  /\ \E i \in Pick(1..fev), d \in Pick(Ends), fo \in Pick(Fades) :
       /\ MayEdit(s, i, s.t + d)
       /\ Call([ a |-> "edit", id |-> i, en |-> s.t + d, fo |-> fo ],
               [ a |-> "edit", id |-> i, en |-> s.t + d, fo |-> fo ])

EditRel ==
  LET s == Seen IN
  /\ fev > 0 /\ UNCHANGED fev /\ OnGrid
  /\ \E i \in Pick(1..fev), d \in Pick({ x \in Ends : x >= 0 }), fo \in Pick(Fades) :
       /\ MayEdit(s, i, s.t + d)
       /\ Call([ a |-> "editr", id |-> i, en |-> d, fo |-> fo ],
               [ a |-> "editr", id |-> i, en |-> d, fo |-> fo ])

\* Reset through the sequencer (or its frontend).
Reset ==
  /\ UNCHANGED fev
  /\ Call([ a |-> "reset" ], [ a |-> "reset" ])

\* Reset called on the backend itself: pending calls come first.
BackReset ==
  /\ Backend /\ Len(hist) < Depth
  /\ LET r == ApplyAll(ev, time, Append(q, [ a |-> "reset" ])) IN ev' = r.es /\ time' = r.t
  /\ q' = << >> /\ UNCHANGED << step, fev >>
  /\ Log([ a |-> "breset" ])

\* Rendering: pending calls take effect first, in order.
Play ==
  /\ Len(hist) < Depth
  /\ \E n \in Pick(Plays) :
       LET s == Seen
           r == Render(s.es, s.t, step, n)
       IN  /\ ev' = r.es /\ time' = r.t
           /\ Log([ a |-> "play", n |-> n, x |-> r.out, t |-> r.t ])
  /\ q' = << >> /\ UNCHANGED << step, fev >>

\* Change of sample rate (of the backend, if there is one: pending calls come
\* first): stream time and events stay; events pushed from now on run at the new
\* rate.
SetRate ==
  /\ Rates /\ Len(hist) < Depth
  /\ Seen.t % 2 = 0
  /\ \E d \in Pick({ 1, 2 }) :
       /\ step' = d
       /\ Log([ a |-> "rate", step |-> d ])
  /\ LET s == Seen IN ev' = s.es /\ time' = s.t
  /\ q' = << >> /\ UNCHANGED fev

\* A long session: n times a one-sample event, each followed by two samples.
\* They leave nothing behind.
Soak ==
  /\ Soaks # {} /\ ~Replay /\ Len(hist) < Depth /\ q = << >> /\ step = 1
  /\ \E n \in Pick(Soaks) :
       /\ ev' = [ i \in 1..Len(ev) |-> [ ev[i] EXCEPT !.pos =
                   IF ev[i].alive THEN @ + Max(0, Min(ev[i].en, time + 2 * n) - Max(ev[i].st, time)) ELSE @ ] ]
       /\ time' = time + 2 * n
       /\ Log([ a |-> "soak", n |-> n ])
  /\ UNCHANGED << q, step, fev >>

Next == Push \/ PushRelative \/ EditAbs \/ EditRel \/ Reset \/ BackReset \/ Play \/ SetRate

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design *)

\* An event sounds only inside its window, and its unit has run once for every
\* sample of the window that has been rendered.
InWindow ==
  \A i \in 1..Len(ev) :
    /\ ev[i].pos > 0 => ev[i].st < time
    /\ ev[i].pos * step <= Max(0, time) + 2 * step * ev[i].pos * (IF Rates THEN 1 ELSE 0)
    /\ (ev[i].pos > 0 /\ ~Rates) => ev[i].pos <= time - ev[i].st + step

\* Nothing that is not alive ever becomes alive again.
AliveMonotone == [][ \A i \in 1..Len(ev) : ev'[i].alive => ev[i].alive ]_vars

\* Edits move only ends, and only towards the present (shorten).
EndsShrink == [][ \A i \in 1..Len(ev) : ev'[i].en <= ev[i].en /\ ev'[i].st = ev[i].st /\ ev'[i].fi = ev[i].fi ]_vars

\* Rendering terms are sane: fades lie strictly inside (0, 1), or at 0 on the
\* first sample of a fade-in.
LastOut == IF hist # << >> /\ hist[Len(hist)].a = "play" THEN hist[Len(hist)].x ELSE << >>
TermsSane ==
  \A k \in 1..Len(LastOut) : \A j \in 1..Len(LastOut[k]) :
    LET x == LastOut[k][j] IN
      /\ x[4] > 0 => 0 <= x[3] /\ x[3] < x[4]
      /\ x[6] > 0 => 0 < x[5] /\ x[5] < x[6]
      /\ \A j2 \in 1..Len(LastOut[k]) : j2 > j => LastOut[k][j2][1] > x[1]

\* Queued calls never outnumber what the frontend has sent; ids agree.
QueueSane == (~Backend => q = << >>) /\ Len(Seen.es) = fev

\* Print complete behaviours for replay.
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
