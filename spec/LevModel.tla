------------------------------ MODULE LevModel ------------------------------
(***************************************************************************)
(* The Levenshtein automata of LevAutomaton, run on every word.  A state   *)
(* of this module is an automaton (algorithm, query, maximum distance)     *)
(* together with the word read so far, the automaton's state after it and  *)
(* the two last rows of the reference computation.                         *)
(***************************************************************************)
EXTENDS LevAutomaton

CONSTANTS Chars, MaxQuery, MaxN, MaxWord, Algs

VARIABLES alg, q, n, phase, v, st, rows
vars == <<alg, q, n, phase, v, st, rows>>

Init == /\ alg \in Algs /\ n \in 0..MaxN /\ q = <<>> /\ phase = "query"
        /\ v = <<>> /\ st = Initial /\ rows = <<>>

\* Letters appear in the query for the first time in order: one query of
\* each class of renamings is enough, since only equality matters.
Fresh(x) == 1 + Cardinality({x[k] : k \in 1..Len(x)})

Extend == /\ phase = "query" /\ Len(q) < MaxQuery
          /\ \E c \in Chars : c <= Fresh(q) /\ q' = Append(q, c)
          /\ UNCHANGED <<alg, n, phase, v, st, rows>>
Start == /\ phase = "query"
         /\ phase' = "word" /\ rows' = <<FirstRow(q), FirstRow(q)>>
         /\ UNCHANGED <<alg, q, n, v, st>>
Read == /\ phase = "word" /\ Len(v) < MaxWord
        /\ \E c \in Chars :
             /\ v' = Append(v, c)
             /\ st' = StepState(alg, q, n, st, c)
             /\ rows' = <<rows[2], NextRow(alg, q, rows[1], rows[2], Len(v) + 1, IF v = <<>> THEN 0 ELSE v[Len(v)], c)>>
        /\ UNCHANGED <<alg, q, n, phase>>

Next == Extend \/ Start \/ Read
Spec == Init /\ [][Next]_vars

D == rows[2][Len(q) + 1]
Found == StateDistance(alg, st, Len(q))

\* The distance read off the state is exact within the maximum distance, and
\* beyond it the state does not claim to be within.
Exact == phase = "word" =>
  IF D <= n THEN Found = D ELSE (Found = Unbounded \/ Found > n)

(* The code tells a candidate from its state's distance only, so the state  *)
(* must also be alive (not null) for every prefix of a word within the      *)
(* maximum distance.  Dead states stay dead in this model, so that Exact    *)
(* covers it: here, only what the lists look like.                          *)
WellFormed == phase = "word" =>
  /\ \A k \in 1..Len(st) : ValidPosition(alg, Len(q), n, st[k])
  /\ \A k \in 1..(Len(st) - 1) : Before(st[k], st[k + 1]) /\ st[k] # st[k + 1]

\* The automaton gives a word up as soon as nothing that begins with it can be
\* accepted, and not before.
Prunes == phase = "word" => ((st # <<>>) = \E j \in 1..Len(rows[2]) : rows[2][j] <= n)

\* The characteristic vector covers what every position may look at.
WindowOK == phase = "word" /\ st # <<>> =>
  \A k \in 1..Len(st) : /\ st[k][1] - st[1][1] <= 2 * n
                        /\ st[k][1] >= st[1][1]

\* A position's errors are at least what is unavoidable, and it stands for
\* words that really can follow: p accepts exactly what its meaning says.
Sound == phase = "word" =>
  \A k \in 1..Len(st) : LET p == st[k] IN p[3] = 0 => Rows(alg, SubSeq(q, 1, p[1]), v)[2][p[1] + 1] <= p[2]
=============================================================================
