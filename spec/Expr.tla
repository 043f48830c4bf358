------------------------------- MODULE Expr -------------------------------
(***************************************************************************)
(* Graph expressions: what the operators mean, for statically typed graphs, *)
(* networks and mixtures of the two alike.                                  *)
(*                                                                          *)
(* A pool of expressions grows by creating leaves, combining expressions    *)
(* and copying them; expressions are played, reset, retuned, and their      *)
(* leaves are changed with settings.  One network expression may be made a  *)
(* frontend: from then on its backend plays what was committed last.        *)
(*                                                                          *)
(* A leaf is a probe (see NetGraph): its k-th sample at output p is         *)
(*     (base * (p+1) + k + r + sum (q+2) * vq) mod 1009                     *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Arities,    \* set of << inputs, outputs >> of leaves
          MaxAr,      \* expressions have at most this many inputs, outputs
          MaxPool, MaxLeaves, Plays, Fronts, Depth, Sim

VARIABLES pool,   \* sequence of items; FALSE in .on means used up
          lf,     \* leaves by number: ins, outs, base, position, node id (0: none known)
          t, hist
vars == << pool, lf, t, hist >>

Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
PickSome(S) == IF S = {} THEN {} ELSE Pick(S)
Mod == 1009
Limit == 8388608      \* values stay exact in single precision below this

-----------------------------------------------------------------------------
(* Expressions *)

Leaf(u, i, o) == [ op |-> "leaf", u |-> u, i |-> i, o |-> o ]
Binary == { "pipe", "stack", "branch", "bus", "sum", "sub", "mul" }
Unary == { "thru", "neg", "listen" }
Scalar == { "addc", "cadd", "subc", "csub", "mulc", "cmul" }
Multi == { "stacki", "branchi", "busi", "sumi", "pipei" }

RECURSIVE Ins(_), Outs(_)
Ins(e) ==
  CASE e.op = "leaf" -> e.i
    [] e.op \in Unary \cup Scalar -> Ins(e.x)
    [] e.op \in { "pipe", "branch", "bus" } -> Ins(e.x)
    [] e.op \in { "stack", "sum", "sub", "mul" } -> Ins(e.x) + Ins(e.y)
    [] e.op \in { "stacki", "sumi" } -> Len(e.f) * Ins(e.f[1])
    [] e.op \in { "branchi", "busi", "pipei" } -> Ins(e.f[1])
Outs(e) ==
  CASE e.op = "leaf" -> e.o
    [] e.op = "thru" -> Ins(e.x)
    [] e.op \in { "neg", "listen" } \cup Scalar -> Outs(e.x)
    [] e.op = "pipe" -> Outs(e.y)
    [] e.op \in { "stack", "branch" } -> Outs(e.x) + Outs(e.y)
    [] e.op \in { "bus", "sum", "sub", "mul" } -> Outs(e.x)
    [] e.op \in { "stacki", "branchi" } -> Len(e.f) * Outs(e.f[1])
    [] e.op \in { "busi", "sumi", "pipei" } -> Outs(e.f[1])

\* When two expressions can be combined.
Can(op, x, y) ==
  CASE op = "pipe" -> Outs(x) = Ins(y)
    [] op = "stack" -> TRUE
    [] op = "branch" -> Ins(x) = Ins(y)
    [] op = "bus" -> Ins(x) = Ins(y) /\ Outs(x) = Outs(y)
    [] op \in { "sum", "sub", "mul" } -> Outs(x) = Outs(y)

RECURSIVE Leaves(_)
Leaves(e) ==
  CASE e.op = "leaf" -> { e.u }
    [] e.op \in Unary \cup Scalar -> Leaves(e.x)
    [] e.op \in Binary -> Leaves(e.x) \cup Leaves(e.y)
    [] e.op \in Multi -> UNION { Leaves(e.f[i]) : i \in 1..Len(e.f) }

\* Number of address components a setting needs to reach leaf u in the statically
\* typed form (at most four are possible).
RECURSIVE Level(_, _)
Level(e, u) ==
  CASE e.op = "leaf" -> 0
    [] e.op \in Unary \cup Scalar -> Level(e.x, u)
    [] e.op \in Binary -> 1 + (IF u \in Leaves(e.x) THEN Level(e.x, u) ELSE Level(e.y, u))
    [] e.op \in Multi -> 1

\* Channelwise operations.
Map2(F(_, _), a, b) == [ c \in 1..Len(a) |-> F(a[c], b[c]) ]
Part(v, from, n) == SubSeq(v, from + 1, from + n)

RECURSIVE DotFrom(_, _)
DotFrom(v, q) == IF q > Len(v) THEN 0 ELSE (q + 1) * v[q] + DotFrom(v, q + 1)

\* Output frame of expression e for input frame v, j samples from now, at rate r.
RECURSIVE Eval(_, _, _, _), Chain(_, _, _, _, _), Fold(_, _, _, _, _)
Eval(e, v, j, r) ==
  CASE e.op = "leaf" ->
         LET l == lf[e.u]
             s == l.k + j + r + DotFrom(v, 1)
         IN  [ p \in 1..e.o |-> (l.base * p + s) % Mod ]
    [] e.op = "pipe" -> Eval(e.y, Eval(e.x, v, j, r), j, r)
    [] e.op = "stack" -> Eval(e.x, Part(v, 0, Ins(e.x)), j, r) \o Eval(e.y, Part(v, Ins(e.x), Ins(e.y)), j, r)
    [] e.op = "branch" -> Eval(e.x, v, j, r) \o Eval(e.y, v, j, r)
    [] e.op = "bus" -> LET F(a, b) == a + b IN Map2(F, Eval(e.x, v, j, r), Eval(e.y, v, j, r))
    [] e.op \in { "sum", "sub", "mul" } ->
         LET F(a, b) == IF e.op = "sum" THEN a + b ELSE IF e.op = "sub" THEN a - b ELSE a * b
         IN  Map2(F, Eval(e.x, Part(v, 0, Ins(e.x)), j, r), Eval(e.y, Part(v, Ins(e.x), Ins(e.y)), j, r))
    [] e.op = "thru" ->
         LET w == Eval(e.x, v, j, r)
         IN  [ c \in 1..Len(v) |-> IF c <= Len(w) THEN w[c] ELSE v[c] ]
    [] e.op = "listen" -> Eval(e.x, v, j, r)
    [] e.op \in Scalar \cup { "neg" } ->
         LET w == Eval(e.x, v, j, r)
             F(a) == CASE e.op = "neg" -> -a
                       [] e.op \in { "addc", "cadd" } -> a + e.c
                       [] e.op = "subc" -> a - e.c
                       [] e.op = "csub" -> e.c - a
                       [] e.op \in { "mulc", "cmul" } -> a * e.c
         IN  [ c \in 1..Len(w) |-> F(w[c]) ]
    [] e.op = "stacki" -> Flat([ i \in 1..Len(e.f) |-> Eval(e.f[i], Part(v, (i - 1) * Ins(e.f[1]), Ins(e.f[1])), j, r) ])
    [] e.op = "branchi" -> Flat([ i \in 1..Len(e.f) |-> Eval(e.f[i], v, j, r) ])
    [] e.op = "busi" -> Fold(e.f, 1, [ i \in 1..Len(e.f) |-> v ], j, r)
    [] e.op = "sumi" -> Fold(e.f, 1, [ i \in 1..Len(e.f) |-> Part(v, (i - 1) * Ins(e.f[1]), Ins(e.f[1])) ], j, r)
    [] e.op = "pipei" -> Chain(e.f, 1, v, j, r)
Chain(f, i, v, j, r) == IF i > Len(f) THEN v ELSE Chain(f, i + 1, Eval(f[i], v, j, r), j, r)
Fold(f, i, vs, j, r) ==
  LET w == Eval(f[i], vs[i], j, r)
      F(a, b) == a + b
  IN  IF i = Len(f) THEN w ELSE Map2(F, w, Fold(f, i + 1, vs, j, r))

\* Bound of the absolute values an expression outputs, for inputs bounded by b.
RECURSIVE Bound(_, _)
Bound(e, b) ==
  CASE e.op = "leaf" -> Mod
    [] e.op = "pipe" -> Bound(e.y, Bound(e.x, b))
    [] e.op \in { "stack", "branch" } -> Max(Bound(e.x, b), Bound(e.y, b))
    [] e.op \in { "bus", "sum", "sub" } -> Min(Limit, Bound(e.x, b) + Bound(e.y, b))
    [] e.op = "mul" -> IF Bound(e.x, b) > Limit \div Bound(e.y, b) THEN Limit ELSE Bound(e.x, b) * Bound(e.y, b)
    [] e.op = "thru" -> Max(b, Bound(e.x, b))
    [] e.op \in { "neg", "listen" } -> Bound(e.x, b)
    [] e.op \in { "addc", "cadd", "subc", "csub" } -> Min(Limit, Bound(e.x, b) + Abs(e.c))
    [] e.op \in { "mulc", "cmul" } -> Min(Limit, Bound(e.x, b) * Max(1, Abs(e.c)))
    [] e.op \in { "stacki", "branchi", "pipei" } -> Mod
    [] e.op \in { "busi", "sumi" } -> Mod * Len(e.f)
Exact(e) == Bound(e, Mod) < Limit \div 8

Input(s, n) == [ c \in 1..n |-> (s * (c + 2) + (c - 1) * 17 + 5) % Mod ]
Samples(e, r, n) == [ j \in 1..n |-> Eval(e, Input(t + j - 1, Ins(e)), j - 1, r) ]

-----------------------------------------------------------------------------
(* Actions *)

Item(e, r) == [ on |-> TRUE, e |-> e, r |-> r, front |-> FALSE, ct |-> e ]
Live == { p \in 1..Len(pool) : pool[p].on }
Room == Cardinality(Live) < MaxPool
Fits(e) == Ins(e) <= MaxAr /\ Outs(e) <= MaxAr /\ Exact(e)
Base(m) == (m * 37 + 11) % Mod
Ids == [ u \in 1..Len(lf) |-> lf[u].nid ]
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)

NewLeaves(a, n) == [ i \in 1..n |-> [ ins |-> a[1], outs |-> a[2], base |-> Base(Len(lf) + i), k |-> 0, nid |-> Len(lf) + i ] ]
New ==
  /\ Room /\ Len(lf) < MaxLeaves
  /\ \E a \in Pick(Arities) :
       LET u == Len(lf) + 1 IN
       /\ lf' = lf \o NewLeaves(a, 1)
       /\ pool' = Append(pool, Item(Leaf(u, a[1], a[2]), 44))
       /\ Do([ a |-> "leaf", u |-> u, i |-> a[1], o |-> a[2], b |-> Base(u) ])
  /\ UNCHANGED t

NewMulti ==
  /\ Room /\ Len(lf) + 5 <= MaxLeaves
  /\ \E op \in Pick(Multi), n \in Pick({ 1, 2, 3, 5 }), a \in Pick(Arities) :
       LET u == Len(lf)
           e == [ op |-> op, f |-> [ i \in 1..n |-> Leaf(u + i, a[1], a[2]) ] ]
       IN
       /\ (op = "pipei" => a[1] = a[2])
       /\ Fits(e) /\ (a[1] > 0 \/ a[2] > 0)
       /\ lf' = lf \o NewLeaves(a, n)
       /\ pool' = Append(pool, Item(e, 44))
       /\ Do([ a |-> "multi", op |-> op, n |-> n, u |-> u + 1, i |-> a[1], o |-> a[2],
               b |-> [ i \in 1..n |-> Base(u + i) ], ar |-> << Ins(e), Outs(e) >> ])
  /\ UNCHANGED t

\* The right operand's nodes get new ids where they are in the left one as well.
Clash(x, y) == { lf[u].nid : u \in Leaves(x) } \cap { lf[u].nid : u \in Leaves(y) }
Pairs == { z \in Live \X Live \X Binary : z[1] # z[2] /\ Can(z[3], pool[z[1]].e, pool[z[2]].e) }
\* Combinations with the frontend after which it can be committed.
FrontPairs == { z \in Pairs : /\ pool[z[1]].front \/ pool[z[2]].front
                              /\ LET e == [ op |-> z[3], x |-> pool[z[1]].e, y |-> pool[z[2]].e ]
                                     c == IF pool[z[1]].front THEN pool[z[1]].ct ELSE pool[z[2]].ct
                                 IN  Ins(e) = Ins(c) /\ Outs(e) = Outs(c) }
CombineOf(S) ==
  /\ Cardinality(Live) >= 2
  /\ \E z \in PickSome(S) :
       LET p == z[1]
           q == z[2]
           op == z[3]
           x == pool[p].e
           y == pool[q].e
           e == [ op |-> op, x |-> x, y |-> y ]
           cl == Clash(x, y)
           lead == IF pool[q].front THEN q ELSE p
       IN
       /\ Fits(e)
       /\ ~(pool[p].front /\ pool[q].front)
       \* a frontend stays the leading network, and its ids do not change
       /\ pool[q].front => cl \subseteq { 0 }
       /\ lf' = [ u \in 1..Len(lf) |-> IF u \in Leaves(y) /\ lf[u].nid \in cl THEN [ lf[u] EXCEPT !.nid = 0 ] ELSE lf[u] ]
       /\ pool' = [ pool EXCEPT ![p] = [ on |-> TRUE, e |-> e, r |-> pool[lead].r,
                                         front |-> pool[lead].front, ct |-> pool[lead].ct ],
                                ![q] = [ pool[q] EXCEPT !.on = FALSE ] ]
       /\ Do([ a |-> "bin", op |-> op, p |-> p, q |-> q, ar |-> << Ins(e), Outs(e) >>,
               ids |-> [ u \in 1..Len(lf) |-> IF u \in Leaves(e) THEN lf'[u].nid ELSE 0 ], r |-> pool[lead].r,
               lead |-> lead ])
  /\ UNCHANGED t
Combine == CombineOf(Pairs)
CombineFront == CombineOf(FrontPairs)

Apply1 ==
  /\ Live # {}
  /\ \E p \in Pick(Live), op \in Pick(Unary \cup Scalar), c \in Pick({ 0, 1, 2, 5, -1, -3 }) :
       LET e == IF op \in Unary THEN [ op |-> op, x |-> pool[p].e ] ELSE [ op |-> op, x |-> pool[p].e, c |-> c ] IN
       /\ Fits(e)
       /\ (op = "thru" => Ins(pool[p].e) > 0)
       /\ (op = "listen" => ~pool[p].front)
       /\ pool' = [ pool EXCEPT ![p].e = e ]
       /\ Do([ a |-> "un", op |-> op, p |-> p, c |-> c, ar |-> << Ins(e), Outs(e) >> ])
  /\ UNCHANGED << lf, t >>

\* A copy: new leaves in the same state, with the same node ids.
RECURSIVE Shift(_, _)
Shift(e, d) ==
  CASE e.op = "leaf" -> [ e EXCEPT !.u = d[e.u] ]
    [] e.op \in Unary \cup Scalar -> [ e EXCEPT !.x = Shift(e.x, d) ]
    [] e.op \in Binary -> [ e EXCEPT !.x = Shift(e.x, d), !.y = Shift(e.y, d) ]
    [] e.op \in Multi -> [ e EXCEPT !.f = [ i \in 1..Len(e.f) |-> Shift(e.f[i], d) ] ]
Dup ==
  /\ Room
  /\ \E p \in Pick(Live) :
       LET us == SortedSeq(Leaves(pool[p].e))
           d == [ u \in Leaves(pool[p].e) |-> Len(lf) + (CHOOSE i \in 1..Len(us) : us[i] = u) ]
       IN
       /\ ~pool[p].front /\ Len(lf) + Len(us) <= MaxLeaves
       /\ lf' = lf \o [ i \in 1..Len(us) |-> lf[us[i]] ]
       /\ pool' = Append(pool, Item(Shift(pool[p].e, d), pool[p].r))
       /\ Do([ a |-> "dup", p |-> p, from |-> us, to |-> Len(lf) + 1 ])
  /\ UNCHANGED t

\* Whether networks can be combined.
Query ==
  /\ Live # {}
  /\ \E p \in Pick(Live), q \in Pick(Live) :
       Do([ a |-> "can", p |-> p, q |-> q, x |-> [ op \in Binary |-> Can(op, pool[p].e, pool[q].e) ] ])
  /\ UNCHANGED << pool, lf, t >>

\* What is heard of an item: its expression, or what its backend has.
Heard(p) == IF pool[p].front THEN pool[p].ct ELSE pool[p].e
Play ==
  /\ Live # {}
  /\ \E p \in Pick(Live), n \in Pick(Plays) :
       LET e == Heard(p) IN
       /\ Outs(e) > 0
       /\ lf' = [ u \in 1..Len(lf) |-> IF u \in Leaves(e) THEN [ lf[u] EXCEPT !.k = @ + n ] ELSE lf[u] ]
       /\ Do([ a |-> "play", p |-> p, n |-> n, t |-> t, x |-> Samples(e, pool[p].r, n) ])
       /\ t' = t + n
  /\ UNCHANGED pool

Reset ==
  /\ \E p \in Pick(Live) :
       /\ ~pool[p].front
       /\ lf' = [ u \in 1..Len(lf) |-> IF u \in Leaves(pool[p].e) THEN [ lf[u] EXCEPT !.k = 0 ] ELSE lf[u] ]
       /\ Do([ a |-> "reset", p |-> p ])
  /\ UNCHANGED << pool, t >>

Rate ==
  /\ \E p \in Pick(Live), r \in Pick({ 22, 44, 48, 96 }) :
       /\ ~pool[p].front
       /\ pool' = [ pool EXCEPT ![p].r = r ]
       /\ Do([ a |-> "rate", p |-> p, r |-> r ])
  /\ UNCHANGED << lf, t >>

\* A setting addressed to one leaf, by node id in networks and by path elsewhere.
Set ==
  /\ \E p \in Pick(Live) : \E u \in Pick(Leaves(pool[p].e)) :
       LET b == (Base(u) + 7 * Len(hist) + 3) % Mod IN
       /\ Level(pool[p].e, u) <= 4 /\ lf[u].nid # 0
       /\ lf' = [ lf EXCEPT ![u].base = b ]
       /\ Do([ a |-> "set", p |-> p, u |-> u, b |-> b ])
  /\ UNCHANGED << pool, t >>

\* A setting that addresses no node.
SetNone ==
  /\ \E p \in Pick(Live) : Do([ a |-> "setnone", p |-> p ])
  /\ UNCHANGED << pool, lf, t >>

MakeFront ==
  /\ Fronts /\ ~\E p \in Live : pool[p].front
  /\ \E p \in Pick(Live) :
       /\ Outs(pool[p].e) > 0
       /\ pool' = [ pool EXCEPT ![p].front = TRUE, ![p].ct = pool[p].e ]
       /\ Do([ a |-> "front", p |-> p ])
  /\ UNCHANGED << lf, t >>

Commit ==
  /\ \E p \in { x \in Live : pool[x].front } :
       /\ Ins(pool[p].e) = Ins(pool[p].ct) /\ Outs(pool[p].e) = Outs(pool[p].ct)
       /\ pool[p].e # pool[p].ct
       /\ pool' = [ pool EXCEPT ![p].ct = pool[p].e ]
       /\ Do([ a |-> "commit", p |-> p ])
  /\ UNCHANGED << lf, t >>

Init == pool = << >> /\ lf = << >> /\ t = 0 /\ hist = << >>
Next == New \/ New \/ NewMulti \/ Combine \/ Combine \/ Combine \/ Combine \/ Apply1 \/ Apply1 \/ Dup \/ Query
     \/ Play \/ Play \/ Reset \/ Rate \/ Set \/ SetNone \/ MakeFront \/ Commit
Spec == Init /\ [][Next]_vars
NextSet == New \/ New \/ NewMulti \/ Combine \/ Combine \/ Combine \/ Combine \/ Apply1 \/ Apply1 \/ Dup
     \/ Play \/ Play \/ Play \/ Reset \/ Set \/ Set \/ Set \/ Set \/ SetNone \/ SetNone
NextFront == New \/ New \/ NewMulti \/ Combine \/ CombineFront \/ CombineFront \/ CombineFront \/ Apply1 \/ Apply1 \/ Dup
     \/ Play \/ Play \/ Play \/ Rate \/ Set \/ MakeFront \/ MakeFront \/ Commit \/ Commit \/ Commit
SpecFront == Init /\ [][NextFront]_vars
SpecSet == Init /\ [][NextSet]_vars

-----------------------------------------------------------------------------
(* The algebra of the operators, checked on the expressions that come up. *)
Frame(e) == Eval(e, Input(t, Ins(e)), 0, 44)
Shape == \A p \in Live : Len(Frame(pool[p].e)) = Outs(pool[p].e)
\* Every leaf belongs to one item.
Disjoint == \A p, q \in Live : p # q => Leaves(pool[p].e) \cap Leaves(pool[q].e) = {}
UniqueIds == \A p \in Live : \A u, w \in Leaves(pool[p].e) : (u # w /\ lf[u].nid # 0) => lf[u].nid # lf[w].nid
\* Laws: branching is stacking with shared inputs, bus is sum with shared inputs,
\* difference is sum with negation, pipe and stack are associative.
B(op, x, y) == [ op |-> op, x |-> x, y |-> y ]
Laws == \A p, q \in Live : p <= q =>
  LET x == pool[p].e
      y == pool[q].e
      v == Input(t, Ins(x))
      w == Input(t, Ins(y))
  IN
  /\ Ins(x) = Ins(y) => Eval(B("branch", x, y), v, 0, 44) = Eval(B("stack", x, y), v \o v, 0, 44)
  /\ (Ins(x) = Ins(y) /\ Outs(x) = Outs(y)) => Eval(B("bus", x, y), v, 0, 44) = Eval(B("sum", x, y), v \o v, 0, 44)
  /\ Outs(x) = Outs(y) => /\ Eval(B("sub", x, y), v \o w, 0, 44) = Eval(B("sum", x, [ op |-> "neg", x |-> y ]), v \o w, 0, 44)
                          /\ Eval(B("sum", x, y), v \o w, 0, 44) = Eval(B("sum", y, x), w \o v, 0, 44)
  /\ Outs(x) = Ins(y) => Outs(B("pipe", x, y)) = Len(Eval(B("pipe", x, y), v, 0, 44))
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
