------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* Streams that cross threads: the snoop (audio to frontend, in buffers of  *)
(* Size samples) and the ring (frontend to audio, frame by frame).          *)
(*                                                                          *)
(* The samples of the snooped stream are numbered 1, 2, ...; a buffer is    *)
(* named by the number of its first sample.  A snoop keeps at least Room    *)
(* buffers waiting; what happens to buffers beyond is left open, except     *)
(* that whatever arrives is whole, in order and arrives once.               *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Size, Room, Caps, RingCaps, Plays, Floods, Depth, Sim

VARIABLES cap,      \* snoop: number of latest samples asked to be kept
          n,        \* samples snooped
          part,     \* samples in the unfinished buffer
          q,        \* finished buffers not received
          got,      \* buffers received
          rcap, ring, sent, played, hist
vars == << cap, n, part, q, got, rcap, ring, sent, played, hist >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
On == hist # << >>
snoopv == << cap, n, part, q, got >>
ringv == << rcap, ring, sent, played >>

\* Buffers finished by k more samples: the first starts at the beginning of the unfinished one.
Finished(k) == [ i \in 1..((part + k) \div Size) |-> n - part + 1 + (i - 1) * Size ]
\* Latest samples of the received buffers r, newest first.
Latest(r) ==
  [ i \in 1..Min(cap, 3 * Size) |->
      LET b == (i - 1) \div Size IN
      IF b >= Len(r) THEN 0 ELSE r[Len(r) - b] + Size - 1 - ((i - 1) % Size) ]
View(r) == [ total |-> Size * Len(r), latest |-> Latest(r) ]

Begin ==
  /\ hist = << >>
  /\ \E c \in Pick(Caps), r \in Pick(RingCaps), w \in Pick(1..3) :
       /\ cap' = c /\ n' = 0 /\ part' = 0 /\ q' = << >> /\ got' = << >>
       /\ rcap' = r /\ ring' = << >> /\ sent' = 0 /\ played' = 0
       /\ Do([ a |-> "make", c |-> c, r |-> r, w |-> w ])
Play(S, what) ==
  \E k \in Pick(S) :
    /\ n' = n + k /\ part' = (part + k) % Size
    /\ q' = q \o Finished(k)
    /\ Len(q') <= Room
    /\ Do([ a |-> what, from |-> n, n |-> k ])
    /\ UNCHANGED << cap, got >> /\ UNCHANGED ringv
Get ==
  /\ got' = IF q = << >> THEN got ELSE Append(got, Head(q))
  /\ q' = IF q = << >> THEN q ELSE Tail(q)
  /\ Do([ a |-> "get", b |-> IF q = << >> THEN 0 ELSE Head(q), x |-> View(got') ])
  /\ UNCHANGED << cap, n, part >> /\ UNCHANGED ringv
Update ==
  /\ got' = got \o q /\ q' = << >>
  /\ Do([ a |-> "update", x |-> View(got') ])
  /\ UNCHANGED << cap, n, part >> /\ UNCHANGED ringv
\* Rendering in one thread while the frontend polls in another, then the rest is received.
Race ==
  \E k \in Pick(Floods) :
    /\ n' = n + k /\ part' = (part + k) % Size
    /\ Len(q) + Len(Finished(k)) <= Room
    /\ got' = got \o q \o Finished(k) /\ q' = << >>
    /\ Do([ a |-> "race", from |-> n, n |-> k, x |-> View(got') ])
    /\ UNCHANGED cap /\ UNCHANGED ringv
\* A reset drops the unfinished buffer.
Reset ==
  /\ part' = 0 /\ Do([ a |-> "reset" ]) /\ UNCHANGED << cap, n, q, got >> /\ UNCHANGED ringv
Copy == Do([ a |-> "copy" ]) /\ UNCHANGED snoopv /\ UNCHANGED ringv
\* More than there is room for: the oldest Room buffers arrive, then possibly others; the behaviour ends here.
Flood ==
  /\ \E k \in Pick({ 70000, 80001 }) :
       LET all == q \o Finished(k) IN
       /\ n' = n + k /\ part' = 0 /\ q' = << >> /\ got' = << >> /\ cap' = cap
       /\ Do([ a |-> "flood", from |-> n, n |-> k, have |-> Len(got), sure |-> Room,
               old |-> q, start |-> n - part + 1, total |-> Len(all) ])
       /\ UNCHANGED ringv

\* Ring.
Send ==
  \E k \in Pick({ 1, 2, 5, 40 }) :
    LET m == Min(k, rcap - Len(ring)) IN
    /\ ring' = ring \o [ i \in 1..m |-> sent + i ] /\ sent' = sent + m
    /\ Do([ a |-> "send", from |-> sent, n |-> k, ok |-> m ])
    /\ UNCHANGED << rcap, played >> /\ UNCHANGED snoopv
RPlay ==
  \E k \in Pick(Plays) :
    LET m == Min(k, Len(ring)) IN
    /\ played' = played + m
    /\ ring' = SubSeq(ring, m + 1, Len(ring))
    /\ Do([ a |-> "rplay", x |-> [ i \in 1..k |-> IF i <= m THEN ring[i] ELSE 0 ] ])
    /\ UNCHANGED << rcap, sent >> /\ UNCHANGED snoopv
\* Sending in one thread, with retries, while another renders until all is heard.
RRace ==
  \E k \in Pick(Floods) :
    /\ sent' = sent + k /\ ring' = << >> /\ played' = sent + k
    /\ Do([ a |-> "rrace", left |-> Len(ring), from |-> sent, n |-> k ])
    /\ UNCHANGED rcap /\ UNCHANGED snoopv

Init == /\ cap = 1 /\ n = 0 /\ part = 0 /\ q = << >> /\ got = << >> /\ rcap = 1 /\ ring = << >> /\ sent = 0 /\ played = 0
        /\ hist = << >>
Next == Begin \/ (On /\ \E op \in Pick(1..20) :
          CASE op \in 1..5 -> Play(Plays, "play") [] op = 6 -> Play(Floods, "play")
            [] op \in 7..9 -> Get [] op \in 10..11 -> Update [] op = 12 -> Reset [] op = 13 -> Copy
            [] op \in 14..16 -> Send [] op \in 17..19 -> RPlay [] op = 20 -> (Race \/ RRace))
Spec == Init /\ [][Next]_vars
NextFlood == IF Len(hist) = Depth - 1 THEN Flood ELSE Next
SpecFlood == Init /\ [][NextFlood]_vars

-----------------------------------------------------------------------------
\* Buffers are received and wait in the order of the stream, without overlap.
InOrder == LET s == got \o q IN \A i \in 1..(Len(s) - 1) : s[i] + Size <= s[i + 1]
\* Without resets nothing is lost.
Whole == (\A i \in DOMAIN hist : hist[i].a \notin { "reset", "flood" }) => Size * (Len(got) + Len(q)) + part = n
RingSane == Len(ring) <= rcap /\ played + Len(ring) = sent
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
