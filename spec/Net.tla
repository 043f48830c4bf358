-------------------------------- MODULE Net --------------------------------
(* A network being edited and played (no backend).                          *)
EXTENDS NetGraph

CONSTANTS Ios,        \* set of << inputs, outputs >> of the network
          Arities,    \* set of << inputs, outputs >> of nodes
          MaxNodes, Plays, Acyclic, Depth, Sim

VARIABLES g, t, made, hist
vars == << g, t, made, hist >>

Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S

Init == \E io \in Ios :
  /\ g = Empty(io[1], io[2]) /\ t = 0 /\ made = 0
  /\ hist = << [ a |-> "init", i |-> io[1], o |-> io[2] ] >>

\* Every unit created gets a base of its own.
Base(m) == (m * 37 + 11) % Mod

Ok(h) == Acyclic => ~Cyclic(h)
Do(h, l) ==
  /\ Len(hist) < Depth
  /\ Ok(h)
  /\ g' = h
  /\ hist' = Append(hist, [ a |-> l[1], p |-> Tail(l), x |-> Wiring(h) ])
  /\ UNCHANGED t
Same == UNCHANGED made
Made == made' = made + 1

Nodes == Alive(g)
Srcs(self) == { Zero } \cup { In(c) : c \in 0..(g.I - 1) }
        \cup UNION { { << i, p >> : p \in 0..(g.n[i].outs - 1) } : i \in Nodes \ {self} }

Push == Made /\ Len(g.n) < MaxNodes /\ \E a \in Pick(Arities) :
  Do(AddNode(g, a[1], a[2], Base(made + 1)), << "push", a[1], a[2], Base(made + 1) >>)
Chain == Made /\ Len(g.n) < MaxNodes /\ \E a \in Pick(Arities) :
  Do(Chained(g, a[1], a[2], Base(made + 1)), << "chain", a[1], a[2], Base(made + 1) >>)
\* The unit given back is the one that was in the node: its base and position.
Remove == Same /\ Nodes # {} /\ \E i \in Pick(Nodes) :
  Do(Removed(g, i, FALSE), << "remove", i, g.n[i].base, g.n[i].k >>)
RemoveLink == Same /\ Nodes # {} /\ \E i \in Pick(Nodes) :
  /\ g.n[i].ins = g.n[i].outs
  /\ Do(Removed(g, i, TRUE), << "remove_link", i, g.n[i].base, g.n[i].k >>)
Replace == Made /\ Nodes # {} /\ \E i \in Pick(Nodes) :
  Do(Replaced(g, i, Base(made + 1)), << "replace", i, Base(made + 1), g.n[i].base, g.n[i].k >>)
Connect == Same /\ Nodes # {} /\ \E j \in Pick(Nodes) : g.n[j].ins > 0 /\ \E q \in Pick(0..(g.n[j].ins - 1)) :
  \E s \in Pick(Srcs(j)) :
  Do(SetSrc(g, j, q, s), << "set_source", j, q, s[1], s[2] >>)
ConnectNode == Same /\ Cardinality(Nodes) >= 2 /\ \E j \in Pick(Nodes) : \E i \in Pick(Nodes \ {j}) :
  g.n[j].ins > 0 /\ g.n[i].outs > 0 /\ \E q \in Pick(0..(g.n[j].ins - 1)), p \in Pick(0..(g.n[i].outs - 1)) :
  Do(SetSrc(g, j, q, << i, p >>), << "connect", i, p, j, q >>)
ConnectInput == Same /\ Nodes # {} /\ g.I > 0 /\ \E j \in Pick(Nodes) : g.n[j].ins > 0 /\
  \E q \in Pick(0..(g.n[j].ins - 1)), c \in Pick(0..(g.I - 1)) :
  Do(SetSrc(g, j, q, In(c)), << "connect_input", c, j, q >>)
Disconnect == Same /\ Nodes # {} /\ \E j \in Pick(Nodes) : g.n[j].ins > 0 /\ \E q \in Pick(0..(g.n[j].ins - 1)) :
  Do(SetSrc(g, j, q, Zero), << "disconnect", j, q >>)
ConnectOutput == Same /\ Nodes # {} /\ O(g) > 0 /\ \E i \in Pick(Nodes) : g.n[i].outs > 0 /\
  \E p \in Pick(0..(g.n[i].outs - 1)), c \in Pick(0..(O(g) - 1)) :
  Do(SetOut(g, c, << i, p >>), << "connect_output", i, p, c >>)
SetOutput == Same /\ O(g) > 0 /\ \E c \in Pick(0..(O(g) - 1)) : \E s \in Pick(Srcs(0)) :
  Do(SetOut(g, c, s), << "set_output_source", c, s[1], s[2] >>)
DisconnectOutput == Same /\ O(g) > 0 /\ \E c \in Pick(0..(O(g) - 1)) :
  Do(SetOut(g, c, Zero), << "disconnect_output", c >>)
PassThrough == Same /\ O(g) > 0 /\ g.I > 0 /\ \E c \in Pick(0..(O(g) - 1)), b \in Pick(0..(g.I - 1)) :
  Do(SetOut(g, c, In(b)), << "pass_through", b, c >>)
PipeIn == Same /\ Nodes # {} /\ \E i \in Pick(Nodes) : Do(PipeInput(g, i), << "pipe_input", i >>)
PipeOut == Same /\ Nodes # {} /\ \E i \in Pick(Nodes) : Do(PipeOutput(g, i), << "pipe_output", i >>)
PipeNodes == Same /\ Nodes # {} /\ \E i \in Pick(Nodes), j \in Pick(Nodes) :
  Do(PipeAll(g, i, j), << "pipe_all", i, j >>)
Run == Same /\ Cardinality(Nodes) >= 2 /\ \E j \in Pick(Nodes) : \E i \in Pick(Nodes \ {j}) :
  /\ g.n[j].ins > 0 /\ g.n[j].ins <= g.n[i].outs
  /\ \E p \in Pick(0..(g.n[i].outs - g.n[j].ins)) :
     Do(PipeRun(g, i, p, j), << "run", i, p, j >>)
\* Settings addressed to a node change its base; to a removed node, nothing.
Set == Made /\ Len(g.n) > 0 /\ \E i \in Pick(1..Len(g.n)) :
  Do(IF g.n[i].alive THEN [ g EXCEPT !.n[i].base = Base(made + 1) ] ELSE g, << "set", i, Base(made + 1) >>)
Rate == Same /\ \E r \in Pick({ 22, 44, 48, 96 }) : Do(Rated(g, r), << "rate", r >>)
Reset == Same /\ Do(ResetNodes(g), << "reset" >>)

Play ==
  /\ Len(hist) < Depth
  /\ \E n \in Pick(Plays) :
       /\ t' = t + n
       /\ g' = Advance(g, n)
       /\ hist' = Append(hist, [ a |-> "play", n |-> n, t |-> t, x |-> Samples(g, t, n), cyc |-> Cyclic(g) ])
  /\ UNCHANGED made

Edit == Push \/ Chain \/ Remove \/ RemoveLink \/ Replace \/ Connect \/ ConnectNode \/ ConnectInput
     \/ Disconnect \/ ConnectOutput \/ SetOutput \/ DisconnectOutput \/ PassThrough
     \/ PipeIn \/ PipeOut \/ PipeNodes \/ Run \/ Set \/ Rate \/ Reset
Next == Edit \/ Play
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WF == WellFormed(g)
CycleDef == Cyclic(g) <=> CyclicDef(g)
\* An edit changes no node's arity, never revives a node, and no unit's position
\* except by playing, resetting or replacing.
Stable == [][ \A i \in 1..Len(g.n) :
                /\ g'.n[i].ins = g.n[i].ins /\ g'.n[i].outs = g.n[i].outs
                /\ g'.n[i].alive => g.n[i].alive
                /\ t' = t => g'.n[i].k \in { g.n[i].k, 0 } ]_vars
\* Samples are a function of the graph and time: playing in two parts is playing at once.
Split == (~Cyclic(g)) => RenderG(g, t, 3) = RenderG(g, t, 1) \o RenderG(Advance(g, 1), t + 1, 2)
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
