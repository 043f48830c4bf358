------------------------------- MODULE IdGen -------------------------------
(***************************************************************************)
(* Unique identifiers from two small words.                                 *)
(*                                                                          *)
(* A call takes the low word and advances it.  Below the danger zone it     *)
(* reads the high word and returns the pair unless the low word was wound   *)
(* back meanwhile, in which case it starts over.  In the danger zone it     *)
(* advances the high word, winds the low word back unless another call did, *)
(* and returns the pair.  Each step of a call is one atomic operation; the  *)
(* calls of different threads interleave at will.                           *)
(*                                                                          *)
(* Skip stands for identifiers handed out by calls that are over; it is     *)
(* taken only when no call is under way, and no low word is taken while     *)
(* another call is suspended since almost a cycle of low words (its age):   *)
(* uniqueness is promised as long as that does not happen.                  *)
(***************************************************************************)
EXTENDS Fun

CONSTANTS Threads, Danger, Calls, MaxHigh, Starts, Stress, Depth, Sim, Record

VARIABLES low, high, pc, mine, ids, dup, left, age, hist
vars == << low, high, pc, mine, ids, dup, left, age, hist >>
View == << low, high, pc, mine, ids, dup, left, age >>
Pick(S) == IF Sim /\ Len(hist) >= 0 THEN { RandomElement(S) } ELSE S
Do(l) == (Record => Len(hist) < Depth) /\ hist' = IF Record THEN Append(hist, l) ELSE << 1 >>
On == hist # << >>
Idle == \A t \in Threads : pc[t] = "idle"

Begin ==
  /\ ~On
  /\ \E s \in Pick(Starts) :
       /\ low' = Danger - s /\ high' = 0 /\ ids' = {} /\ dup' = FALSE
       /\ Do([ a |-> "make", back |-> s ])
       /\ UNCHANGED << pc, mine, left, age >>

\* Thread t takes a low word.
Take(t) ==
  /\ \A v \in Threads \ { t } : pc[v] # "idle" => age[v] + Cardinality(Threads) < Danger
  /\ age' = [ v \in Threads |-> IF v = t \/ pc[v] = "idle" THEN 0 ELSE age[v] + 1 ]
  /\ mine' = [ mine EXCEPT ![t] = << low, 0 >> ] /\ low' = low + 1
  /\ pc' = [ pc EXCEPT ![t] = IF low < Danger THEN "read" ELSE "raise" ]
\* Identifier x is returned to t.
Return(t, x) == ids' = ids \cup { x } /\ dup' = (dup \/ x \in ids) /\ pc' = [ pc EXCEPT ![t] = "idle" ]
Go(t) ==
  /\ On
  /\ Do([ a |-> "go", t |-> t ])
  /\ CASE pc[t] = "idle" ->
            /\ left[t] > 0 /\ left' = [ left EXCEPT ![t] = @ - 1 ]
            /\ Take(t)
            /\ UNCHANGED << high, ids, dup >>
       [] pc[t] = "read" ->
            /\ mine' = [ mine EXCEPT ![t] = << @[1], high >> ]
            /\ pc' = [ pc EXCEPT ![t] = "again" ]
            /\ UNCHANGED << low, high, ids, dup, left, age >>
       [] pc[t] = "again" ->
            /\ IF low < mine[t][1] \/ low >= Danger
               THEN pc' = [ pc EXCEPT ![t] = "retry" ] /\ UNCHANGED << ids, dup >>
               ELSE Return(t, mine[t])
            /\ UNCHANGED << low, high, mine, left, age >>
       [] pc[t] = "retry" ->
            /\ Take(t)
            /\ UNCHANGED << high, ids, dup, left >>
       [] pc[t] = "raise" ->
            /\ high < MaxHigh
            /\ mine' = [ mine EXCEPT ![t] = << @[1], high >> ] /\ high' = high + 1
            /\ pc' = [ pc EXCEPT ![t] = "rewind" ]
            /\ UNCHANGED << low, ids, dup, left, age >>
       [] pc[t] = "rewind" ->
            /\ low' = IF low < Danger THEN low ELSE 0
            /\ Return(t, mine[t])
            /\ UNCHANGED << high, mine, left, age >>
\* The remaining low words up to the danger zone are handed out.
Skip ==
  /\ On /\ Idle /\ low < Danger - 3 /\ high < MaxHigh
  /\ \E s \in Pick(Starts) :
       /\ Danger - s > low
       /\ LET new == { << i, high >> : i \in low..(Danger - s - 1) }
          IN ids' = ids \cup new /\ dup' = (dup \/ ids \cap new # {})
       /\ low' = Danger - s
       /\ Do([ a |-> "skip", back |-> s ])
  /\ UNCHANGED << high, pc, mine, left, age >>
\* Free running threads; nothing is known about the order.
Burst ==
  /\ On /\ Idle /\ Stress
  /\ \E n \in Pick({ 2, 5, 8 }), k \in Pick({ 500, 3000 }), s \in Pick({ 1, 200, 900 }), w \in Pick({ "gen", "nodes" }) :
       Do([ a |-> "burst", n |-> n, k |-> k, back |-> s, what |-> w ])
  /\ UNCHANGED << low, high, pc, mine, ids, dup, left, age >>

Init == /\ low = 0 /\ high = 0 /\ pc = [ t \in Threads |-> "idle" ] /\ mine = [ t \in Threads |-> << 0, 0 >> ]
        /\ ids = {} /\ dup = FALSE /\ left = [ t \in Threads |-> Calls ] /\ age = [ t \in Threads |-> 0 ] /\ hist = << >>
Next == Begin \/ (\E t \in Pick(Threads) : Go(t)) \/ Skip
Spec == Init /\ [][Next]_vars
SpecTree == Init /\ [][Begin \/ \E t \in Threads : Go(t)]_vars
SpecBurst == Init /\ [][Begin \/ Burst]_vars

-----------------------------------------------------------------------------
Unique == ~dup
Finished == Idle /\ \A t \in Threads : left[t] = 0
Emit == (On /\ Record /\ (Finished \/ Len(hist) = Depth)) => PrintT(ToJson(hist))
=============================================================================
