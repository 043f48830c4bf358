----------------------------- MODULE NetGraph -----------------------------
(***************************************************************************)
(* What a fundsp network is: nodes with numbered inputs and outputs, one    *)
(* source per node input and one per network output.                        *)
(*                                                                          *)
(* A source is << 0, 0 >> (zero), << -1, c >> (network input c) or          *)
(* << i, p >> (output p of node i).  Ports are counted from 0.              *)
(*                                                                          *)
(* The nodes are probes whose output is exactly computable: with input      *)
(* values v0, v1, ... at its k-th sample a probe of base b outputs at port p *)
(*     (b * (p+1) + k + r + sum (q+2) * vq) mod 1009                        *)
(* where r is the sample rate (in kHz) of the network it is in,             *)
(* so every sample of the network's output depends on which sources each    *)
(* node reads, in which order the nodes run, and how often each has run.    *)
(***************************************************************************)
EXTENDS Fun

Mod == 1009
Zero == << 0, 0 >>
In(c) == << -1, c >>

Zeros(n) == [ q \in 1..n |-> Zero ]
Node(ins, outs, base) ==
  [ ins |-> ins, outs |-> outs, base |-> base, k |-> 0, src |-> Zeros(ins), alive |-> TRUE, fresh |-> TRUE ]

\* A graph: sample rate, inputs, nodes in order of creation, sources of the outputs.
Empty(i, o) == [ r |-> 44, I |-> i, n |-> << >>, o |-> Zeros(o) ]
O(g) == Len(g.o)
Alive(g) == { i \in 1..Len(g.n) : g.n[i].alive }
Size(g) == Cardinality(Alive(g))

-----------------------------------------------------------------------------
(* Edits *)

AddNode(g, ins, outs, base) == [ g EXCEPT !.n = Append(@, Node(ins, outs, base)) ]

\* Replace every use of node i's outputs.
Redirect(s, i, f(_)) == IF s[1] = i THEN f(s[2]) ELSE s
Removed(g, i, link) ==
  LET f(p) == IF link THEN g.n[i].src[p + 1] ELSE Zero
      noself(s, j) == IF s[1] = j THEN Zero ELSE s
  IN  [ g EXCEPT
        !.n = [ j \in 1..Len(g.n) |->
                 IF j = i THEN [ g.n[j] EXCEPT !.alive = FALSE, !.src = Zeros(g.n[j].ins) ]
                 ELSE [ g.n[j] EXCEPT !.src = [ q \in 1..g.n[j].ins |->
                         IF @[q][1] = i THEN noself(f(@[q][2]), j) ELSE @[q] ] ] ],
        !.o = [ c \in 1..Len(g.o) |-> Redirect(g.o[c], i, f) ] ]

Replaced(g, i, base) == [ g EXCEPT !.n[i].base = base, !.n[i].k = 0, !.n[i].fresh = TRUE ]

SetSrc(g, i, q, s) == [ g EXCEPT !.n[i].src[q + 1] = s ]
SetOut(g, c, s) == [ g EXCEPT !.o[c + 1] = s ]

\* All inputs of node i at once; all outputs at once.
Modulo(c, n, f(_)) == IF n = 0 THEN Zero ELSE f(c % n)
PipeInput(g, i) == LET f(c) == In(c) IN [ g EXCEPT !.n[i].src = [ q \in 1..g.n[i].ins |-> Modulo(q - 1, g.I, f) ] ]
PipeOutput(g, i) == LET f(p) == << i, p >> IN [ g EXCEPT !.o = [ c \in 1..Len(g.o) |-> Modulo(c - 1, g.n[i].outs, f) ] ]
PipeAll(g, i, j) ==
  IF i = j THEN g
  ELSE LET f(p) == << i, p >> IN [ g EXCEPT !.n[j].src = [ q \in 1..g.n[j].ins |-> Modulo(q - 1, g.n[i].outs, f) ] ]
\* Successive outputs of i, from port p on, to the inputs of j.
PipeRun(g, i, p, j) == [ g EXCEPT !.n[j].src = [ q \in 1..g.n[j].ins |-> << i, p + q - 1 >> ] ]

Chained(g, ins, outs, base) ==
  LET h == AddNode(g, ins, outs, base)
      i == Len(h.n)
      f(c) == g.o[c + 1]
      w == IF Size(g) = 0 THEN PipeInput(h, i)
           ELSE [ h EXCEPT !.n[i].src = [ q \in 1..ins |-> Modulo(q - 1, Len(g.o), f) ] ]
  IN  PipeOutput(w, i)

\* A change of sample rate reaches every unit.
Rated(g, r) == IF r = g.r THEN g
  ELSE [ g EXCEPT !.r = r, !.n = [ i \in 1..Len(g.n) |-> [ g.n[i] EXCEPT !.fresh = TRUE ] ] ]
ResetNodes(g) == [ g EXCEPT !.n = [ i \in 1..Len(g.n) |-> [ g.n[i] EXCEPT !.k = 0, !.fresh = TRUE ] ] ]

-----------------------------------------------------------------------------
(* Cycles *)

Reads(g, i) == { g.n[i].src[q][1] : q \in 1..g.n[i].ins } \ { 0, -1 }
\* The nodes left after taking away, again and again, nodes that read from none left.
RECURSIVE Peel(_, _)
Peel(g, left) ==
  LET free == { i \in left : Reads(g, i) \cap left = {} }
  IN  IF free = {} THEN left ELSE Peel(g, left \ free)
Cyclic(g) == Peel(g, Alive(g)) # {}
\* The same, declaratively: some set of nodes in which everyone reads from a member.
CyclicDef(g) == \E S \in SUBSET Alive(g) : S # {} /\ \A i \in S : Reads(g, i) \cap S # {}

-----------------------------------------------------------------------------
(* Meaning *)

InputAt(t, c) == (t * (c + 3) + c * 17 + 5) % Mod

Value(s, t, vals) ==
  IF s[1] = 0 THEN 0
  ELSE IF s[1] = -1 THEN InputAt(t, s[2])
  ELSE vals[s[1]][s[2] + 1]

RECURSIVE SumIn(_, _, _, _)
SumIn(nd, t, vals, q) ==
  IF q > nd.ins THEN 0 ELSE (q + 1) * Value(nd.src[q], t, vals) + SumIn(nd, t, vals, q + 1)
ProbeOut(nd, r, t, vals) ==
  LET s == nd.k + r + SumIn(nd, t, vals, 1) IN [ p \in 1..nd.outs |-> (nd.base * p + s) % Mod ]

\* Outputs of all nodes at one sample, each computed after everything it reads.
RECURSIVE Eval(_, _, _, _)
Eval(g, t, vals, todo) ==
  IF todo = {} THEN vals
  ELSE LET ready == { i \in todo : Reads(g, i) \cap todo = {} }
       IN  Eval(g, t, [ i \in (DOMAIN vals) \cup ready |->
                           IF i \in ready THEN ProbeOut(g.n[i], g.r, t, vals) ELSE vals[i] ], todo \ ready)

OutputAt(g, t) ==
  LET vals == Eval(g, t, << >>, Alive(g)) IN [ c \in 1..Len(g.o) |-> Value(g.o[c], t, vals) ]

\* Every node runs once per sample.
Advance(g, d) == [ g EXCEPT !.n = [ i \in 1..Len(g.n) |-> [ g.n[i] EXCEPT !.k = IF g.n[i].alive THEN @ + d ELSE @ ] ] ]

\* n samples from time t; while there is a cycle the output is not specified.
RECURSIVE RenderG(_, _, _)
RenderG(g, t, n) ==
  IF n = 0 THEN << >> ELSE << OutputAt(g, t) >> \o RenderG(Advance(g, 1), t + 1, n - 1)
Samples(g, t, n) == IF Cyclic(g) THEN << >> ELSE RenderG(g, t, n)

\* What can be asked about a network.
Wiring(g) ==
  [ size |-> Size(g), cyc |-> Cyclic(g), o |-> g.o,
    n |-> [ i \in 1..Len(g.n) |-> IF g.n[i].alive
              THEN [ ins |-> g.n[i].ins, outs |-> g.n[i].outs, src |-> g.n[i].src ] ELSE [ ins |-> -1 ] ] ]

-----------------------------------------------------------------------------
(* Well-formedness *)

SourceOK(g, s, self) ==
  \/ s = Zero
  \/ s[1] = -1 /\ s[2] \in 0..(g.I - 1)
  \/ s[1] \in Alive(g) /\ s[1] # self /\ s[2] \in 0..(g.n[s[1]].outs - 1)
WellFormed(g) ==
  /\ \A i \in Alive(g) : /\ Len(g.n[i].src) = g.n[i].ins
                         /\ \A q \in 1..g.n[i].ins : SourceOK(g, g.n[i].src[q], i)
  /\ \A c \in 1..Len(g.o) : SourceOK(g, g.o[c], 0)
=============================================================================
