------------------------------- MODULE NetRT -------------------------------
(***************************************************************************)
(* A network split into a frontend, which is edited, and a backend, which   *)
(* renders.  Commits and settings travel through a queue; whatever is in    *)
(* the queue takes effect, in order, at the next rendering call.            *)
(*                                                                          *)
(* The frontend's copy of a unit is marked fresh when it has to replace     *)
(* whatever the backend has under that id: it was added, replaced, reset    *)
(* or re-rated since the last commit.                                       *)
(***************************************************************************)
EXTENDS NetGraph

CONSTANTS Ios, Arities, MaxNodes, Plays, Depth, Sim, Pre

VARIABLES f,      \* the frontend's graph
          b,      \* the backend's graph
          q,      \* messages on their way
          on,     \* whether the backend has been created
          t, made, hist
vars == << f, b, q, on, t, made, hist >>

Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Base(m) == (m * 37 + 11) % Mod

\* Effect of a commit on the backend's graph: the wiring and the fresh units of
\* the committed graph, the backend's own units for the rest.
Migrate(old, new) ==
  [ new EXCEPT !.n = [ i \in 1..Len(new.n) |->
      IF new.n[i].alive /\ ~new.n[i].fresh
      THEN [ new.n[i] EXCEPT !.k = old.n[i].k, !.base = old.n[i].base ]
      ELSE new.n[i] ] ]
SetBase(g, i, v) == IF i <= Len(g.n) /\ g.n[i].alive THEN [ g EXCEPT !.n[i].base = v ] ELSE g

RECURSIVE Deliver(_, _)
Deliver(g, ms) ==
  IF ms = << >> THEN g
  ELSE LET m == Head(ms)
           h == IF m.a = "net" THEN Migrate(g, m.g) ELSE SetBase(g, m.i, m.v)
       IN  Deliver(h, Tail(ms))

Settled(g) == [ g EXCEPT !.n = [ i \in 1..Len(g.n) |-> [ g.n[i] EXCEPT !.fresh = FALSE ] ] ]

Init == \E io \in Ios :
  /\ f = Empty(io[1], io[2]) /\ b = Empty(io[1], io[2]) /\ q = << >> /\ on = FALSE /\ t = 0 /\ made = 0
  /\ hist = << [ a |-> "init", i |-> io[1], o |-> io[2] ] >>

Nodes == Alive(f)
Srcs(self) == { Zero } \cup { In(c) : c \in 0..(f.I - 1) }
        \cup UNION { { << i, p >> : p \in 0..(f.n[i].outs - 1) } : i \in Nodes \ {self} }

More == Len(hist) < Depth
Log(l, h) == hist' = Append(hist, [ a |-> l[1], p |-> Tail(l), x |-> Wiring(h) ])
\* An edit of the frontend.  (Cycles are the subject of Net.tla.)
Do(h, l) == More /\ ~Cyclic(h) /\ f' = h /\ Log(l, h) /\ UNCHANGED << b, q, on, t >>
Same == UNCHANGED made
Made == made' = made + 1

Push == Made /\ Len(f.n) < MaxNodes /\ \E a \in Pick(Arities) :
  Do(AddNode(f, a[1], a[2], Base(made + 1)), << "push", a[1], a[2], Base(made + 1) >>)
Chain == Made /\ Len(f.n) < MaxNodes /\ \E a \in Pick(Arities) :
  Do(Chained(f, a[1], a[2], Base(made + 1)), << "chain", a[1], a[2], Base(made + 1) >>)
Remove == Same /\ Nodes # {} /\ \E i \in Pick(Nodes) :
  Do(Removed(f, i, FALSE), << "remove", i, f.n[i].base, f.n[i].k >>)
RemoveLink == Same /\ Nodes # {} /\ \E i \in Pick(Nodes) :
  /\ f.n[i].ins = f.n[i].outs
  /\ Do(Removed(f, i, TRUE), << "remove_link", i, f.n[i].base, f.n[i].k >>)
Replace == Made /\ Nodes # {} /\ \E i \in Pick(Nodes) :
  Do(Replaced(f, i, Base(made + 1)), << "replace", i, Base(made + 1), f.n[i].base, f.n[i].k >>)
Connect == Same /\ Nodes # {} /\ \E j \in Pick(Nodes) : f.n[j].ins > 0 /\ \E r \in Pick(0..(f.n[j].ins - 1)) :
  \E s \in Pick(Srcs(j)) :
  Do(SetSrc(f, j, r, s), << "set_source", j, r, s[1], s[2] >>)
SetOutput == Same /\ O(f) > 0 /\ \E c \in Pick(0..(O(f) - 1)) : \E s \in Pick(Srcs(0)) :
  Do(SetOut(f, c, s), << "set_output_source", c, s[1], s[2] >>)
PipeOut == Same /\ Nodes # {} /\ \E i \in Pick(Nodes) : Do(PipeOutput(f, i), << "pipe_output", i >>)
PipeNodes == Same /\ Nodes # {} /\ \E i \in Pick(Nodes), j \in Pick(Nodes) :
  Do(PipeAll(f, i, j), << "pipe_all", i, j >>)
Reset == Same /\ Do(ResetNodes(f), << "reset" >>)
\* A different sample rate makes every unit fresh: the backend gets the
\* frontend's copies, re-rated.
Rate == Same /\ \E r \in Pick({ 22, 44, 48, 96 }) : Do(Rated(f, r), << "rate", r >>)

\* Settings reach the frontend's own copy at once, the backend through the queue.
Set == /\ More /\ Made /\ Len(f.n) > 0
       /\ \E i \in Pick(1..Len(f.n)) :
            LET v == Base(made + 1) IN
            /\ f' = SetBase(f, i, v)
            /\ q' = IF on THEN Append(q, [ a |-> "set", i |-> i, v |-> v ]) ELSE q
            /\ Log(<< "set", i, v >>, f')
       /\ UNCHANGED << b, on, t >>

Commit ==
  /\ More /\ Same /\ on
  /\ q' = Append(q, [ a |-> "net", g |-> f ])
  /\ f' = Settled(f)
  /\ Log(<< "commit" >>, f)
  /\ UNCHANGED << b, on, t >>

\* The backend starts out with the frontend's graph as it is.
Backend ==
  /\ More /\ Same /\ ~on /\ Len(hist) > Pre
  /\ on' = TRUE /\ b' = Settled(f) /\ f' = Settled(f)
  /\ Log(<< "backend" >>, f)
  /\ UNCHANGED << q, t >>

BackReset ==
  /\ More /\ Same /\ on
  /\ b' = ResetNodes(Deliver(b, q)) /\ q' = << >>
  /\ hist' = Append(hist, [ a |-> "breset" ])
  /\ UNCHANGED << f, on, t >>

\* Before the backend exists the network itself is played.
Play ==
  /\ More /\ Same
  /\ \E n \in Pick(Plays) :
       LET g == IF on THEN Deliver(b, q) ELSE f IN
       /\ t' = t + n
       /\ IF on THEN b' = Advance(g, n) /\ q' = << >> /\ UNCHANGED f
                ELSE f' = Advance(g, n) /\ UNCHANGED << b, q >>
       /\ hist' = Append(hist, [ a |-> "play", n |-> n, t |-> t, x |-> Samples(g, t, n) ])
  /\ UNCHANGED on

Next == Push \/ Chain \/ Chain \/ Remove \/ RemoveLink \/ Replace \/ Connect \/ Connect \/ SetOutput \/ PipeOut \/ PipeNodes
     \/ Reset \/ Rate \/ Set \/ Set \/ Commit \/ Commit \/ Commit \/ Backend \/ Backend \/ BackReset \/ Play \/ Play \/ Play
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WF == WellFormed(f) /\ WellFormed(b) /\ ~Cyclic(b)
\* A node that has been committed and not touched since is not fresh, so every
\* node kept from the backend exists there.
Kept == \A j \in 1..Len(q) : q[j].a = "net" =>
          LET old == Deliver(b, SubSeq(q, 1, j - 1)) IN
          \A i \in Alive(q[j].g) : ~q[j].g.n[i].fresh => i <= Len(old.n) /\ old.n[i].alive
\* Once everything is delivered and nothing is pending, the wirings agree.
Converges == (hist[Len(hist)].a = "commit") => Wiring(Deliver(b, q)) = Wiring(f)
\* Delivering in two batches is delivering at once.
Batches == \A j \in 0..Len(q) :
             Deliver(Deliver(b, SubSeq(q, 1, j)), SubSeq(q, j + 1, Len(q))) = Deliver(b, q)
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
