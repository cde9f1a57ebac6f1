-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* The three edit distances.  This is the reference every other part of    *)
(* the specification and every trace of the implementation is judged by.   *)
(*                                                                         *)
(* Dist is computed row by row: row i holds the distances between the      *)
(* first i characters of w and every prefix of q.  EditModel.tla checks    *)
(* it against the edit scripts that define the distances.                  *)
(***************************************************************************)
EXTENDS Terms

STD == "standard"
TRA == "transposition"
MAS == "merge_and_split"
Algorithms == {STD, TRA, MAS}

FirstRow(q) == [k \in 1..(Len(q) + 1) |-> k - 1]

(* Row i from row i-1 (p) and row i-2 (pp); c is character i of w and cp    *)
(* the one before it.  Entry j+1 of a row belongs to the prefix of q of     *)
(* length j.                                                                *)
NextRow(alg, q, pp, p, i, cp, c) ==
  FoldLeft(
    LAMBDA acc, j :
      LET base == Mn(Mn(acc[j] + 1,                          \* only in q
                        p[j + 1] + 1),                       \* only in w
                     p[j] + (IF q[j] = c THEN 0 ELSE 1))     \* match or substitution
      IN Append(acc,
           CASE alg = STD -> base
             [] alg = TRA ->
                  IF i > 1 /\ j > 1 /\ q[j] = cp /\ q[j - 1] = c
                  THEN Mn(base, pp[j - 1] + 1) ELSE base     \* transposition
             [] alg = MAS ->
                  LET m == IF j > 1 THEN Mn(base, p[j - 1] + 1) ELSE base  \* two of q, one of w
                  IN IF i > 1 THEN Mn(m, pp[j] + 1) ELSE m),               \* one of q, two of w
    <<i>>, Idx(Len(q)))

\* <<row i-1, row i>> after reading w.
Rows(alg, q, w) ==
  FoldLeft(LAMBDA a, i :
             <<a[2], NextRow(alg, q, a[1], a[2], i, IF i > 1 THEN w[i - 1] ELSE 0, w[i])>>,
           <<FirstRow(q), FirstRow(q)>>, Idx(Len(w)))

\* The distance is symmetric (EditModel checks it), so the shorter word labels
\* the columns.
Dist(alg, q, w) ==
  IF Len(q) <= Len(w) THEN Rows(alg, q, w)[2][Len(q) + 1] ELSE Rows(alg, w, q)[2][Len(w) + 1]

(* Every elementary operation changes the length by at most one, so terms   *)
(* whose lengths differ by more than n need not be compared.                *)
Near(q, w, n) == Len(q) - Len(w) <= n /\ Len(w) - Len(q) <= n

(* Whether a word that begins with p can be within distance n of q: then a  *)
(* part of q is within distance n of p.  (QueryModel and LevModel check     *)
(* that the automaton is alive exactly then.)                               *)
Viable(alg, p, q, n) == \E R \in {Rows(alg, q, p)[2]} : \E j \in 1..Len(R) : R[j] <= n

(* The answer to a search: pairs of an index into the dictionary's terms    *)
(* and a distance, for exactly the terms within distance n.                 *)
Answer(alg, terms, q, n) ==
  {p \in {<<k, Dist(alg, q, terms[k])>> : k \in {k \in 1..Len(terms) : Near(q, terms[k], n)}} : p[2] <= n}
=============================================================================
