---------------------------- MODULE LevAutomaton ----------------------------
(***************************************************************************)
(* The Levenshtein automata as the implementation builds them: positions,  *)
(* their elementary transitions on a characteristic vector, the insertion  *)
(* of positions into a state, subsumption, sorting, and the distance read  *)
(* off a state.  Each operator follows the case analysis of the function   *)
(* of the same name in src/liblevenshtein/transducer.                      *)
(*                                                                         *)
(* A position <<i, e, s>> says that i characters of the query have been    *)
(* consumed with e errors; s (0 or 1) marks the special positions half-way *)
(* through a transposition, or half-way through splitting a character.     *)
(* A state is a sequence of positions (the implementation's linked list).  *)
(***************************************************************************)
EXTENDS Edit

Unbounded == -1   \* stands for SIZE_MAX, "no index found"

Pos(i, e) == <<i, e, 0>>
Special(i, e) == <<i, e, 1>>

AbsDiff(a, b) == IF a < b THEN b - a ELSE a - b

-----------------------------------------------------------------------------
(* Characteristic vector: which of the k characters of q after the first i  *)
(* equal c.                                                                 *)
CharVector(c, q, k, i) == [j \in 1..k |-> q[i + j] = c]

\* First j in 0..k-1 such that entry h+j (counted from 0) is set.
IndexOf(cv, k, h) ==
  LET hits == {j \in 0..(k - 1) : cv[h + j + 1]}
  IN IF hits = {} THEN Unbounded ELSE CHOOSE j \in hits : \A m \in hits : j <= m

-----------------------------------------------------------------------------
(* position_transition: n maximum distance, p a position, cv characteristic *)
(* vector, off the term index of the state's first position.                *)

StandardTransition(n, p, cv, off) ==
  LET i == p[1]  e == p[2]  h == i - off  w == Len(cv) IN
  IF e < n THEN
    IF h + 2 <= w THEN
      LET k == Mn(n - e + 1, w - h)
          j == IndexOf(cv, k, h)
      IN IF j = 0 THEN << Pos(i + 1, e) >>
         ELSE IF j # Unbounded THEN << Pos(i, e + 1), Pos(i + 1, e + 1), Pos(i + j + 1, e + j) >>
         ELSE << Pos(i, e + 1), Pos(i + 1, e + 1) >>
    ELSE IF h + 1 = w THEN
      IF cv[h + 1] THEN << Pos(i + 1, e) >>
      ELSE << Pos(i, e + 1), Pos(i + 1, e + 1) >>
    ELSE << Pos(i, e + 1) >>
  ELSE IF e = n /\ h + 1 <= w /\ cv[h + 1] THEN << Pos(i + 1, n) >>
  ELSE <<>>

TranspositionTransition(n, p, cv, off) ==
  LET i == p[1]  e == p[2]  t == p[3] = 1  h == i - off  w == Len(cv) IN
  IF (e = 0 /\ 0 < n) \/ (1 <= e /\ e < n) THEN
    IF h + 2 <= w THEN
      IF e = 0 \/ ~ t THEN
        LET k == Mn(n - e + 1, w - h)
            j == IndexOf(cv, k, h)
        IN CASE j = 0 -> << Pos(i + 1, e) >>
             [] j = 1 -> << Pos(i, e + 1), Special(i, e + 1), Pos(i + 1, e + 1), Pos(i + 2, e + 1) >>
             [] j = Unbounded -> << Pos(i, e + 1), Pos(i + 1, e + 1) >>
             [] OTHER -> << Pos(i, e + 1), Pos(i + 1, e + 1), Pos(i + j + 1, e + j) >>
      ELSE IF cv[h + 1] THEN << Pos(i + 2, e) >>
      ELSE <<>>
    ELSE IF h + 1 = w THEN
      IF cv[h + 1] THEN << Pos(i + 1, e) >>
      ELSE << Pos(i, e + 1), Pos(i + 1, e + 1) >>
    ELSE << Pos(i, e + 1) >>
  ELSE IF h + 1 <= w /\ ~ t THEN
    IF cv[h + 1] THEN << Pos(i + 1, n) >> ELSE <<>>
  ELSE IF h + 2 <= w /\ t /\ cv[h + 1] THEN << Pos(i + 2, n) >>
  ELSE <<>>

MergeAndSplitTransition(n, p, cv, off) ==
  LET i == p[1]  e == p[2]  s == p[3] = 1  h == i - off  w == Len(cv) IN
  IF e < n THEN
    IF e > 0 /\ s /\ h + 1 <= w THEN << Pos(i + 1, e) >>
    ELSE IF h + 1 <= w /\ cv[h + 1] THEN << Pos(i + 1, e) >>
    ELSE IF h + 2 <= w THEN
      << Pos(i, e + 1), Special(i, e + 1), Pos(i + 1, e + 1), Pos(i + 2, e + 1) >>
    ELSE IF h + 1 = w THEN
      << Pos(i, e + 1), Special(i, e + 1), Pos(i + 1, e + 1) >>
    ELSE << Pos(i, e + 1) >>
  ELSE IF h + 1 <= w THEN
    IF ~ s THEN IF cv[h + 1] THEN << Pos(i + 1, n) >> ELSE <<>>
    ELSE << Pos(i + 1, e) >>
  ELSE <<>>

PositionTransition(alg, n, p, cv, off) ==
  CASE alg = STD -> StandardTransition(n, p, cv, off)
    [] alg = TRA -> TranspositionTransition(n, p, cv, off)
    [] alg = MAS -> MergeAndSplitTransition(n, p, cv, off)

-----------------------------------------------------------------------------
(* merge: inserts a position before the first one that does not precede it  *)
(* in the order (errors descending, index descending, special first),       *)
(* unless it is already there.                                              *)

\* Position b is passed over when a is inserted.
Passes(alg, a, b) ==
  \/ a[2] < b[2]
  \/ /\ a[2] = b[2]
     /\ \/ a[1] < b[1]
        \/ alg # STD /\ a[1] = b[1] /\ a[3] = 0 /\ b[3] = 1

MergeOne(alg, state, a) ==
  LET passed == {k \in 1..Len(state) : \A m \in 1..k : Passes(alg, a, state[m])}
      k == Cardinality(passed)
  IN IF k < Len(state) /\ state[k + 1] = a THEN state
     ELSE SubSeq(state, 1, k) \o <<a>> \o SubSeq(state, k + 1, Len(state))

Merge(alg, state, positions) ==
  FoldLeft(LAMBDA st, a : MergeOne(alg, st, a), state, positions)

-----------------------------------------------------------------------------
(* subsumes: whether everything reachable from rhs is reachable from lhs.   *)
Subsumes(alg, lhs, rhs, n) ==
  LET i == lhs[1]  e == lhs[2]  s == lhs[3] = 1
      j == rhs[1]  f == rhs[2]  t == rhs[3] = 1
  IN CASE alg = STD -> e <= f /\ AbsDiff(i, j) <= f - e
       [] alg = TRA ->
            IF f < e \/ (f = e /\ s # t) THEN FALSE
            ELSE IF s THEN IF t THEN i = j ELSE f = n /\ i = j
            ELSE IF t THEN AbsDiff(j + 1, i) <= f - e
            ELSE AbsDiff(i, j) <= f - e
       [] alg = MAS ->
            IF f < e \/ (f = e /\ s # t) THEN FALSE
            ELSE IF s /\ ~ t THEN FALSE
            ELSE AbsDiff(i, j) <= f - e

(* unsubsume: for every position, in list order, skips the positions after  *)
(* it that do not have more errors and removes those from the first with    *)
(* more errors on that it subsumes.                                         *)
RECURSIVE UnsubsumeFrom(_, _, _, _)
UnsubsumeFrom(alg, state, k, n) ==
  IF k > Len(state) THEN state
  ELSE
    LET outer == state[k]
        more == {m \in (k + 1)..Len(state) : outer[2] < state[m][2]}
        first == IF more = {} THEN Len(state) + 1 ELSE CHOOSE m \in more : \A x \in more : m <= x
        kept == SelectSeq(SubSeq(state, first, Len(state)), LAMBDA p : ~ Subsumes(alg, outer, p, n))
    IN UnsubsumeFrom(alg, SubSeq(state, 1, first - 1) \o kept, k + 1, n)

Unsubsume(alg, state, n) == UnsubsumeFrom(alg, state, 1, n)

-----------------------------------------------------------------------------
(* compare and sort: by index, then errors, then ordinary before special.   *)
Before(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ a[2] < b[2]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3]

SortPositions(state) == SortSeq(state, Before)

-----------------------------------------------------------------------------
(* StateTransition, and the window of the query that is compared with the   *)
(* next character (LazyQuery::advance).                                     *)
Initial == << Pos(0, 0) >>

Window(n, q, state) == Mn(2 * n + 1, Len(q) - state[1][1])

StateTransitionOn(alg, n, state, cv) ==
  LET off == state[1][1]
      merged == FoldLeft(LAMBDA st, p : Merge(alg, st, PositionTransition(alg, n, p, cv, off)), <<>>, state)
  IN SortPositions(Unsubsume(alg, merged, n))

\* <<>> is the dead state (a null pointer in the implementation).
StepState(alg, q, n, state, c) ==
  IF state = <<>> THEN <<>>
  ELSE StateTransitionOn(alg, n, state, CharVector(c, q, Window(n, q, state), state[1][1]))

Run(alg, q, n, v) == FoldLeft(LAMBDA st, c : StepState(alg, q, n, st, c), Initial, v)

\* distance: the least total over the ordinary positions; Unbounded if none.
StateDistance(alg, state, len) ==
  LET totals == {len - state[k][1] + state[k][2] : k \in {k \in 1..Len(state) : alg = STD \/ state[k][3] = 0}}
  IN IF totals = {} THEN Unbounded ELSE CHOOSE d \in totals : \A x \in totals : d <= x

-----------------------------------------------------------------------------
(* What a position means: the words that may still follow.                  *)
Accepts(alg, q, n, p, v) ==
  IF p[3] = 0
  THEN p[1] <= Len(q) /\ p[2] <= n /\ Dist(alg, Drop(q, p[1]), v) <= n - p[2]
  ELSE /\ v # <<>>
       /\ p[2] <= n
       /\ IF alg = TRA
          THEN /\ p[1] + 2 <= Len(q)
               /\ v[1] = q[p[1] + 1]
               /\ Dist(alg, Drop(q, p[1] + 2), Tail(v)) <= n - p[2]
          ELSE /\ p[1] + 1 <= Len(q)
               /\ Dist(alg, Drop(q, p[1] + 1), Tail(v)) <= n - p[2]

\* Positions that can occur in a state for a query of length len.
ValidPosition(alg, len, n, p) ==
  /\ p[1] \in 0..len
  /\ p[2] \in 0..n
  /\ p[3] = 1 => /\ alg # STD
                 /\ p[2] >= 1
                 /\ p[1] + (IF alg = TRA THEN 2 ELSE 1) <= len

StateAccepts(alg, q, n, state, v) == \E k \in 1..Len(state) : Accepts(alg, q, n, state[k], v)
=============================================================================
