------------------------------ MODULE Routing ------------------------------
(***************************************************************************)
(* Signal flow analysis: latency and frequency response of graphs.          *)
(*                                                                          *)
(* Graphs are built from leaves with the operators of Expr.  For every      *)
(* output the specification knows its paths: where they start (graph        *)
(* inputs, generators, constants), by how many samples they delay and with  *)
(* what gain.  From that follow the latency (the look-ahead along the       *)
(* fastest path; tuned delays do not count), the frequency response (linear *)
(* graphs; all inputs together) and the actual output samples.              *)
(*                                                                          *)
(* The rate is 1024 * m.  Look-aheads and delays are given in 1/1024 s.     *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Kinds, MaxAr, Rates, Plays, Depth, Sim

VARIABLES st,     \* stack of expressions
          hist
vars == << st, hist >>

Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Binary == { "pipe", "stack", "branch", "bus", "sum", "sub", "mul" }
Scalar == { "addc", "cadd", "subc", "csub", "mulc", "cmul" }
Unary == { "thru", "neg", "mdc", "dcm" }
Multi == { "stacki", "branchi", "busi", "sumi", "pipei" }

Arity(k) ==
  CASE k \in { "dc", "gen" } -> << 0, 1 >>
    [] k \in { "split", "nz" } -> << 1, 2 >>
    [] k \in { "join", "rj" } -> << 2, 1 >>
    [] k \in { "sink" } -> << 1, 0 >>
    [] k \in { "rev", "lim2", "mix", "mpass", "sj", "res2", "lp", "ms" } -> << 2, 2 >>
    [] OTHER -> << 1, 1 >>

RECURSIVE Ins(_), Outs(_)
Ins(e) ==
  CASE e.op = "leaf" -> Arity(e.k)[1]
    [] e.op \in Unary \cup Scalar -> Ins(e.x)
    [] e.op \in { "pipe", "branch", "bus" } -> Ins(e.x)
    [] e.op \in { "stack", "sum", "sub", "mul" } -> Ins(e.x) + Ins(e.y)
    [] e.op \in { "stacki", "sumi" } -> Len(e.f) * Ins(e.f[1])
    [] e.op \in { "branchi", "busi", "pipei" } -> Ins(e.f[1])
Outs(e) ==
  CASE e.op = "leaf" -> Arity(e.k)[2]
    [] e.op = "thru" -> Ins(e.x)
    [] e.op \in { "neg", "mdc", "dcm" } \cup Scalar -> Outs(e.x)
    [] e.op = "pipe" -> Outs(e.y)
    [] e.op \in { "stack", "branch" } -> Outs(e.x) + Outs(e.y)
    [] e.op \in { "bus", "sum", "sub", "mul" } -> Outs(e.x)
    [] e.op \in { "stacki", "branchi" } -> Len(e.f) * Outs(e.f[1])
    [] e.op \in { "busi", "sumi", "pipei" } -> Outs(e.f[1])
Can(op, x, y) ==
  CASE op = "pipe" -> Outs(x) = Ins(y)
    [] op = "stack" -> TRUE
    [] op = "branch" -> Ins(x) = Ins(y)
    [] op = "bus" -> Ins(x) = Ins(y) /\ Outs(x) = Outs(y)
    [] op \in { "sum", "sub", "mul" } -> Outs(x) = Outs(y)

-----------------------------------------------------------------------------
(* Signals.
   tap:  gain by << source, delay in samples, filters >>; source c is input c, source 0 is
         the constant one (from time zero on), source 100 + u is generator u; filters
         are symbols: the specification does not know what they do, only that they are
         linear
   lat:  latency in samples, -1: none (nothing but constants)
   inp:  depends on an input
   con:  constant at all times
   q:    the frequency response; 0: reported, equal to what the taps say; 1: perhaps not
         reported; 2: anything; 3: there is none
   wild: the taps do not describe it *)
Nil == << >>
S0 == [ tap |-> Nil, lat |-> -1, inp |-> FALSE, con |-> TRUE, q |-> 1, wild |-> FALSE ]
Src(s, l, i) == [ tap |-> (<< s, 0, {} >> :> 1), lat |-> l, inp |-> i, con |-> (s = 0), q |-> IF i THEN 0 ELSE 1, wild |-> FALSE ]

MinLat(a, b) == IF a < 0 THEN b ELSE IF b < 0 THEN a ELSE Min(a, b)
Merge(a, b, s) ==
  [ k \in DOMAIN a \cup DOMAIN b |-> (IF k \in DOMAIN a THEN a[k] ELSE 0) + s * (IF k \in DOMAIN b THEN b[k] ELSE 0) ]
ScaleT(a, c) == [ k \in DOMAIN a |-> c * a[k] ]
ShiftT(a, d) == [ k \in { << x[1], x[2] + d, x[3] >> : x \in DOMAIN a } |-> a[<< k[1], k[2] - d, k[3] >>] ]

AddS(x, y, s) == [ tap |-> Merge(x.tap, y.tap, s), lat |-> MinLat(x.lat, y.lat), inp |-> x.inp \/ y.inp,
                   con |-> x.con /\ y.con, q |-> Max(x.q, y.q), wild |-> x.wild \/ y.wild ]
ScaleS(x, c) == [ x EXCEPT !.tap = ScaleT(x.tap, c) ]
OffsetS(x, c) == [ x EXCEPT !.tap = Merge(x.tap, (<< 0, 0, {} >> :> c), 1), !.q = IF c = 0 /\ x.q = 0 THEN 0 ELSE Max(1, @) ]
DelayS(x, d) == [ x EXCEPT !.tap = ShiftT(x.tap, d), !.con = FALSE ]
Look(x, d) == [ DelayS(x, d) EXCEPT !.lat = IF x.lat < 0 THEN -1 ELSE x.lat + d, !.q = IF x.inp THEN Max(2, x.q) ELSE 1 ]
\* Filter u. Some filters do not report their response.
Filt(x, u, any) ==
  [ x EXCEPT !.tap = [ k \in { << y[1], y[2], y[3] \cup { u } >> : y \in DOMAIN x.tap } |-> x.tap[<< k[1], k[2], k[3] \ { u } >>] ],
             !.con = FALSE, !.wild = TRUE, !.q = IF x.inp THEN Max(IF any THEN 1 ELSE 0, x.q) ELSE 1 ]
Shape(x) == [ x EXCEPT !.q = IF x.inp THEN 3 ELSE 1 ]
Wild(x) == [ x EXCEPT !.wild = TRUE, !.con = FALSE ]
MulS(x, y) == [ tap |-> Nil, lat |-> MinLat(x.lat, y.lat), inp |-> x.inp \/ y.inp, con |-> FALSE, wild |-> TRUE,
                q |-> IF ~x.inp /\ ~y.inp THEN 1 ELSE IF x.con \/ y.con \/ (x.lat < 0) \/ (y.lat < 0) THEN Max(2, Max(x.q, y.q)) ELSE 3 ]

Quiet == { 20, 21 }
LeafS(e, v, m) ==
  CASE e.k \in { "pass", "mpass" } -> v
    [] e.k = "tick" -> << DelayS(v[1], 1) >>
    [] e.k = "delay" -> << DelayS(v[1], e.d * m) >>
    [] e.k = "gain" -> << ScaleS(v[1], e.d) >>
    [] e.k = "offs" -> << OffsetS(v[1], e.d) >>
    [] e.k = "dc" -> << ScaleS(Src(0, -1, FALSE), e.d) >>
    [] e.k = "gen" -> << Src(100 + e.u, 0, FALSE) >>
    [] e.k = "rev" -> << v[2], v[1] >>
    [] e.k = "split" -> << v[1], v[1] >>
    [] e.k = "join" -> << AddS(v[1], v[2], 1) >>
    [] e.k = "flt" -> << Filt(v[1], e.u, e.d \in Quiet) >>
    [] e.k = "sj" -> << ScaleS(v[1], 2), ScaleS(v[2], 2) >>
    [] e.k = "rj" -> << ScaleS(AddS(v[1], v[2], 1), 2) >>
    [] e.k = "ms" -> << ScaleS(v[1], 4), ScaleS(v[2], 7) >>
    [] e.k = "j3" -> << ScaleS(v[1], 6) >>
    [] e.k = "nz" -> << v[1], ScaleS(Src(0, -1, FALSE), 0) >>
    [] e.k = "nu" -> << v[1] >>
    [] e.k = "sink" -> << >>
    [] e.k = "lim" -> << Look(v[1], e.d * m) >>
    [] e.k = "lim2" -> << Look(v[1], e.d * m), Look(v[2], e.d * m) >>
    [] e.k = "lp" -> << Look(v[1], e.d * m), v[2] >>
    [] e.k = "shape" -> << Shape(v[1]) >>
    [] e.k = "fir" -> << AddS(v[1], AddS(ScaleS(DelayS(v[1], 1), e.d), ScaleS(DelayS(v[1], 2), 2), 1), 1) >>
    [] e.k = "mix" -> << AddS(v[1], ScaleS(v[2], e.d), 1), AddS(ScaleS(v[1], 3), ScaleS(v[2], 0 - 2), 1) >>
    [] e.k = "res" -> << Wild(Shape(Look(v[1], 32))) >>
    [] e.k = "res2" -> LET z == Wild(Shape(Look(AddS(v[1], v[2], 1), 32))) IN << z, z >>
    [] e.k \in { "fb", "fb2" } -> << Wild(Shape(Look(v[1], e.d * m))) >>
    [] e.k = "fb3" -> << Wild(Shape(v[1])) >>
    [] e.k = "over" -> << Wild(Look(v[1], e.d * m)) >>

Part(v, from, n) == SubSeq(v, from + 1, from + n)
Map2(F(_, _), a, b) == [ c \in 1..Len(a) |-> F(a[c], b[c]) ]
Plus(a, b) == AddS(a, b, 1)
RECURSIVE Sig(_, _, _), Chain(_, _, _, _), Fold(_, _, _, _)
Sig(e, v, m) ==
  CASE e.op = "leaf" -> LeafS(e, v, m)
    [] e.op = "pipe" -> Sig(e.y, TLCEval(Sig(e.x, v, m)), m)
    [] e.op = "stack" -> Sig(e.x, Part(v, 0, Ins(e.x)), m) \o Sig(e.y, Part(v, Ins(e.x), Ins(e.y)), m)
    [] e.op = "branch" -> Sig(e.x, v, m) \o Sig(e.y, v, m)
    [] e.op = "bus" -> Map2(Plus, Sig(e.x, v, m), Sig(e.y, v, m))
    [] e.op \in { "sum", "sub", "mul" } ->
         LET F(a, b) == IF e.op = "sum" THEN AddS(a, b, 1) ELSE IF e.op = "sub" THEN AddS(a, b, 0 - 1) ELSE MulS(a, b)
         IN  Map2(F, Sig(e.x, Part(v, 0, Ins(e.x)), m), Sig(e.y, Part(v, Ins(e.x), Ins(e.y)), m))
    [] e.op = "thru" ->
         LET w == Sig(e.x, v, m)
         IN  [ c \in 1..Len(v) |-> IF c <= Len(w) THEN w[c] ELSE v[c] ]
    [] e.op \in Scalar \cup { "neg", "mdc", "dcm" } ->
         LET w == Sig(e.x, v, m)
             F(a) == CASE e.op = "neg" -> ScaleS(a, 0 - 1)
                       [] e.op \in { "addc", "cadd" } -> OffsetS(a, e.c)
                       [] e.op = "subc" -> OffsetS(a, 0 - e.c)
                       [] e.op = "csub" -> OffsetS(ScaleS(a, 0 - 1), e.c)
                       [] e.op \in { "mulc", "cmul", "mdc", "dcm" } -> ScaleS(a, e.c)
         IN  [ c \in 1..Len(w) |-> F(w[c]) ]
    [] e.op = "stacki" -> Flat([ i \in 1..Len(e.f) |-> Sig(e.f[i], Part(v, (i - 1) * Ins(e.f[1]), Ins(e.f[1])), m) ])
    [] e.op = "branchi" -> Flat([ i \in 1..Len(e.f) |-> Sig(e.f[i], v, m) ])
    [] e.op = "busi" -> Fold(e.f, 1, [ i \in 1..Len(e.f) |-> v ], m)
    [] e.op = "sumi" -> Fold(e.f, 1, [ i \in 1..Len(e.f) |-> Part(v, (i - 1) * Ins(e.f[1]), Ins(e.f[1])) ], m)
    [] e.op = "pipei" -> Chain(e.f, 1, v, m)
Chain(f, i, v, m) == IF i > Len(f) THEN v ELSE Chain(f, i + 1, TLCEval(Sig(f[i], v, m)), m)
Fold(f, i, vs, m) ==
  LET w == Sig(f[i], vs[i], m)
  IN  IF i = Len(f) THEN w ELSE Map2(Plus, w, Fold(f, i + 1, vs, m))

Of(e, m) == Sig(e, [ c \in 1..Ins(e) |-> Src(c, 0, TRUE) ], m)

RECURSIVE Least(_, _)
Least(w, i) == IF i > Len(w) THEN -1 ELSE MinLat(w[i].lat, Least(w, i + 1))
Latency(w) == Least(w, 1)

\* What the sources sound like.
Source(s, k) == IF k < 0 THEN 0
                ELSE IF s = 0 THEN 1
                ELSE IF s < 100 THEN ((k * (s + 2)) + s) % 7
                ELSE ((3 * k) + s) % 5
RECURSIVE SumTaps(_, _, _)
SumTaps(tap, D, k) ==
  IF D = {} THEN 0
  ELSE LET x == CHOOSE y \in D : TRUE IN tap[x] * Source(x[1], k - x[2]) + SumTaps(tap, D \ { x }, k)
Samples(w, from, n) == [ c \in 1..Len(w) |-> IF w[c].wild THEN << >>
                          ELSE [ j \in 1..n |-> SumTaps(w[c].tap, DOMAIN w[c].tap, from + j - 1) ] ]
RECURSIVE Mass(_, _)
Mass(tap, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN Abs(tap[x]) + Mass(tap, D \ { x })

\* Response at q/4 of the rate, all inputs together: real and imaginary part.
RECURSIVE SumResp(_, _, _, _)
Cos4(n) == CASE n % 4 = 0 -> 1 [] n % 4 = 2 -> 0 - 1 [] OTHER -> 0
SumResp(tap, D, f, ph) ==
  IF D = {} THEN 0
  ELSE LET x == CHOOSE y \in D : TRUE
       IN  (IF x[1] \in 1..99 THEN tap[x] * Cos4((f * x[2]) + ph) ELSE 0) + SumResp(tap, D \ { x }, f, ph)
\* The taps of the response, for filters.
RECURSIVE Syms(_, _)
Syms(tap, D) ==
  IF D = {} THEN << >>
  ELSE LET x == CHOOSE y \in D : TRUE
       IN  << << x[2], SortedSeq(x[3]), tap[x] >> >> \o Syms(tap, D \ { x })
Sym(s) == LET D == { x \in DOMAIN s.tap : x[1] \in 1..99 } IN
          IF \E x \in D : x[3] # {} THEN Syms(s.tap, D) ELSE << >>
Resp(w) == [ c \in 1..Len(w) |-> [ f \in 1..3 |-> << SumResp(w[c].tap, DOMAIN w[c].tap, f - 1, 0), SumResp(w[c].tap, DOMAIN w[c].tap, f - 1, 1) >> ] ]
\* exp(-i pi n / 2) = cos(pi n / 2) - i sin(pi n / 2), and -sin(pi n / 2) = cos(pi (n + 1) / 2)

-----------------------------------------------------------------------------
(* Actions *)
Params(k) == CASE k \in { "delay" } -> { 1, 2, 3 }
               [] k \in { "gain" } -> { 2, 3, 0 - 1 }
               [] k \in { "offs", "dc" } -> { 1, 2, 0 - 3 }
               [] k \in { "lim", "lim2", "lp", "fb", "fb2", "fb3", "over" } -> { 2, 5, 9 }
               [] k = "flt" -> 0..48
               [] k \in { "fir", "mix" } -> { 1, 4, 0 - 2 }
               [] OTHER -> { 0 }
Light(e) == LET w == Of(e, 1) IN \A c \in 1..Len(w) : Mass(w[c].tap, DOMAIN w[c].tap) < 3000 /\ Cardinality(DOMAIN w[c].tap) < 24
Fits(e) == Ins(e) <= MaxAr /\ Outs(e) <= MaxAr /\ Light(e)
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
Top == st[Len(st)]
Leaf(k, d) == [ op |-> "leaf", k |-> k, d |-> d, u |-> Len(hist) ]

\* some kinds are listed more than once, to come up more often
Kind(z) == IF z \in { "flt2", "flt3", "flt4" } THEN "flt" ELSE z
New ==
  /\ Len(st) < 4
  /\ \E z \in Pick(Kinds) : \E k \in { Kind(z) } : \E d \in Pick(Params(k)) :
       /\ st' = Append(st, Leaf(k, d))
       /\ Do([ a |-> "leaf", k |-> k, d |-> d, u |-> Len(hist), i |-> Arity(k)[1], o |-> Arity(k)[2] ])
NewMulti ==
  /\ Len(st) < 4
  /\ \E op \in Pick(Multi), n \in Pick({ 1, 2, 3 }), z \in Pick(Kinds) : \E k \in { Kind(z) } :
     \E d1 \in Pick(Params(k)), d2 \in Pick(Params(k)), d3 \in Pick(Params(k)) :
       LET ds == << d1, d2, d3 >>
           e == [ op |-> op, f |-> [ i \in 1..n |-> [ Leaf(k, ds[i]) EXCEPT !.u = 1000 + (Len(hist) * 10) + i ] ] ]
       IN
       /\ (op = "pipei" => Arity(k)[1] = Arity(k)[2])
       /\ Fits(e)
       /\ st' = Append(st, e)
       /\ Do([ a |-> "multi", op |-> op, n |-> n, k |-> k, d |-> ds, u |-> 1001 + (Len(hist) * 10), i |-> Arity(k)[1], o |-> Arity(k)[2],
               ar |-> << Ins(e), Outs(e) >> ])
Combine ==
  /\ Len(st) >= 2
  /\ LET x == st[Len(st) - 1]
         y == Top
         S == { op \in Binary : Can(op, x, y) }
     IN
     \E op \in IF S = {} THEN {} ELSE Pick(S) :
       LET e == [ op |-> op, x |-> x, y |-> y ] IN
       /\ Fits(e)
       /\ st' = Append(SubSeq(st, 1, Len(st) - 2), e)
       /\ Do([ a |-> "bin", op |-> op, p |-> Len(st) - 1, q |-> Len(st), ar |-> << Ins(e), Outs(e) >>, ids |-> << >>, r |-> 44 ])
Apply1 ==
  /\ st # << >>
  /\ \E op \in Pick(Unary \cup Scalar), c \in Pick({ 1, 2, 3, 0 - 1, 0 - 2 }) :
       LET e == IF op \in { "thru", "neg" } THEN [ op |-> op, x |-> Top ] ELSE [ op |-> op, x |-> Top, c |-> c ] IN
       /\ Fits(e)
       /\ (op = "thru" => Ins(Top) > 0)
       /\ (op \in { "mdc", "dcm" } => Outs(Top) = 1)
       /\ st' = [ st EXCEPT ![Len(st)] = e ]
       /\ Do([ a |-> "un", op |-> op, p |-> Len(st), c |-> c, ar |-> << Ins(e), Outs(e) >> ])
Swap ==
  /\ Len(st) >= 2
  /\ st' = [ st EXCEPT ![Len(st)] = st[Len(st) - 1], ![Len(st) - 1] = Top ]
  /\ Do([ a |-> "swap" ])

Report(w) == [ c \in 1..Len(w) |-> [ lat |-> w[c].lat, q |-> w[c].q, mass |-> Mass(w[c].tap, DOMAIN w[c].tap), sym |-> Sym(w[c]) ] ]
Ask ==
  /\ st # << >>
  /\ \E p \in Pick(1..Len(st)), m \in Pick(Rates), n \in Pick(Plays) :
       LET w == TLCEval(Of(st[p], m)) IN
       Do([ a |-> "ask", p |-> p, m |-> m, lat |-> Latency(w), o |-> Report(w), resp |-> Resp(w), n |-> n, x |-> Samples(w, 0, n) ])
  /\ UNCHANGED st
\* Rendering with latency compensation.
Render ==
  /\ st # << >>
  /\ \E p \in Pick(1..Len(st)), m \in Pick(Rates), n \in Pick(Plays) :
       LET w == TLCEval(Of(st[p], m))
           l == Max(0, Latency(w))
       IN
       /\ Outs(st[p]) > 0
       /\ Do([ a |-> "render", p |-> p, m |-> m, o |-> Report(w), n |-> n, x |-> Samples(w, l, n) ])
  /\ UNCHANGED st

\* A graph whose memory is allocated in advance renders, and starts over, without
\* allocating or freeing memory.
Ready ==
  /\ st # << >>
  /\ \E p \in Pick(1..Len(st)), m \in Pick(Rates), r \in Pick(Plays), n \in Pick(Plays) :
       Do([ a |-> "ready", p |-> p, m |-> m, r |-> r, n |-> n, still |-> TRUE ])
  /\ UNCHANGED st

Init == st = << >> /\ hist = << >>
Next == New \/ New \/ NewMulti \/ Combine \/ Combine \/ Combine \/ Apply1 \/ Swap \/ Ask \/ Render
Spec == Init /\ [][Next]_vars
NextMem == New \/ New \/ NewMulti \/ Combine \/ Combine \/ Combine \/ Apply1 \/ Swap \/ Ready
SpecMem == Init /\ [][NextMem]_vars

-----------------------------------------------------------------------------
(* Laws *)
\* Where every delay is look-ahead and nothing cancels, the latency is the actual delay of
\* the fastest path.
RECURSIVE Tuned(_)
Tuned(e) ==
  CASE e.op = "leaf" -> e.k \in { "tick", "delay", "fir" }
    [] e.op \in Unary \cup Scalar -> Tuned(e.x)
    [] e.op \in Binary -> Tuned(e.x) \/ Tuned(e.y)
    [] e.op \in Multi -> \E i \in 1..Len(e.f) : Tuned(e.f[i])
LatencyIsReal == \A p \in 1..Len(st) : ~Tuned(st[p]) =>
  LET w == Of(st[p], 2) IN
  \A c \in 1..Len(w) : ~w[c].wild =>
    LET D == { k \in DOMAIN w[c].tap : k[1] # 0 } IN
    /\ D = {} <=> w[c].lat < 0
    /\ \A k \in D : k[2] >= w[c].lat
    /\ D # {} => \E k \in D : k[2] = w[c].lat
\* Latency adds up in series and is the least in parallel.
Series == \A p, q \in 1..Len(st) : p # q /\ Outs(st[p]) = 1 /\ Ins(st[p]) = 1 /\ Ins(st[q]) = 1 /\ Outs(st[q]) = 1 =>
  LET x == Of(st[p], 1)[1]
      y == Of(st[q], 1)[1]
      z == Of([ op |-> "pipe", x |-> st[p], y |-> st[q] ], 1)[1]
      b == Of([ op |-> "bus", x |-> st[p], y |-> st[q] ], 1)[1]
  IN  /\ (x.lat >= 0 /\ y.lat >= 0 /\ x.inp /\ y.inp) => z.lat <= x.lat + y.lat
      /\ b.lat = MinLat(x.lat, y.lat)
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
