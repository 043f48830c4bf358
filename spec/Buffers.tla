------------------------------ MODULE Buffers ------------------------------
(***************************************************************************)
(* Sample buffers: channels of 64 samples, accessed as samples or as        *)
(* vectors of 8, through the owner, a mutable or immutable view, or a view  *)
(* of a range of channels.                                                  *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS MaxCh, Depth, Sim

S == 64
V == 8
VARIABLES kind, mem, hist
vars == << kind, mem, hist >>
Pick(A) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(A) } ELSE A
Do(l) == Len(hist) < Depth /\ hist' = Append(hist, l)
On == hist # << >>
Zeros == [ i \in 1..S |-> 0 ]
Ch == Len(mem)

Begin ==
  /\ hist = << >>
  /\ \E k \in Pick({ "vec", "array" }), c \in Pick(1..MaxCh) :
       /\ kind' = k /\ mem' = [ i \in 1..c |-> Zeros ]
       /\ Do([ a |-> "make", k |-> k, c |-> c ])

\* A view: the owner, a mutable view, or a mutable view of some channels (possibly in two steps).
Views == { "own", "mut", "sub", "subsub" }

Write ==
  /\ Ch > 0
  /\ \E w \in Pick(Views), c \in Pick(1..Ch), form \in Pick({ "one", "vec", "at_mut", "add", "span", "vspan" }), i \in Pick(1..S), v \in Pick(1..9000), n \in Pick(1..S) :
     LET f == IF w \in { "own", "mut" } THEN 1 ELSE (v % c) + 1          \* first channel of the view
         g == IF w = "subsub" THEN ((v \div 7) % (c - f + 1)) + f ELSE f \* of the view in the view
         l == c + ((v \div 3) % (Ch - c + 1))                            \* last channel of the view
         b == (i - 1) \div V                                             \* vector index
         lo == IF form \in { "vec", "at_mut", "add" } THEN b * V + 1 ELSE IF form = "vspan" THEN b * V + 1 ELSE i
         hi == IF form = "one" THEN i
               ELSE IF form \in { "vec", "at_mut", "add" } THEN b * V + V
               ELSE IF form = "span" THEN Min(S, i + n - 1)
               ELSE Min(S, b * V + V * ((n \div V) + 1))
         new == [ j \in lo..hi |-> (IF form = "add" THEN mem[c][j] ELSE 0) + v + 13 * (j - lo) ]
     IN /\ mem' = [ mem EXCEPT ![c] = [ j \in 1..S |-> IF j \in lo..hi THEN new[j] ELSE @[j] ] ]
        /\ Do([ a |-> "write", w |-> w, f |-> f - 1, g |-> g - 1, l |-> l - 1, c |-> c - 1, form |-> form,
                lo |-> lo - 1, hi |-> hi - 1, v |-> v ])
        /\ UNCHANGED kind
Clear == mem' = [ c \in 1..Ch |-> Zeros ] /\ Do([ a |-> "clear" ]) /\ UNCHANGED kind
Resize ==
  /\ kind = "vec"
  /\ \E c \in Pick(0..MaxCh) :
       /\ mem' = [ k \in 1..c |-> IF k <= Ch THEN mem[k] ELSE Zeros ]
       /\ Do([ a |-> "resize", c |-> c ]) /\ UNCHANGED kind
Clone == Do([ a |-> "clone" ]) /\ UNCHANGED << kind, mem >>
Read ==
  /\ Do([ a |-> "read", x |-> mem ]) /\ UNCHANGED << kind, mem >>

Init == kind = "vec" /\ mem = << >> /\ hist = << >>
Next == Begin \/ (On /\
          IF Len(hist) = Depth - 1 THEN Read
          ELSE \E op \in Pick(1..20) :
            CASE op \in 1..13 -> (IF Ch > 0 THEN Write ELSE Resize)
              [] op = 14 -> Clear [] op \in 15..16 -> (IF kind = "vec" THEN Resize ELSE Write)
              [] op = 17 -> Clone [] OTHER -> Read)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Shape == \A c \in 1..Ch : DOMAIN mem[c] = 1..S
\* A write touches one channel only.
Local == [][ (hist' # hist /\ hist'[Len(hist')].a = "write") =>
             Cardinality({ c \in 1..Ch : mem'[c] # mem[c] }) <= 1 ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
