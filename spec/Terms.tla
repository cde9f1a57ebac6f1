------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Terms are finite sequences of characters; a character is a natural     *)
(* number (0..255 when it comes from the implementation).                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

(* A condition of an action.  (To TLC this is an expression, evaluated at    *)
(* once; a quantified formula of an action would be taken apart instead.)   *)
Guard(b) == b = TRUE

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
Idx(n) == [k \in 1..n |-> k]

\* Words over the alphabet A of length at most n.
Words(A, n) == UNION {[1..k -> A] : k \in 0..n}

\* Length of the longest common prefix.
CommonPrefix(v, w) ==
  FoldLeft(LAMBDA n, k : IF n = k - 1 /\ v[k] = w[k] THEN k ELSE n, 0, Idx(Mn(Len(v), Len(w))))

\* Byte-wise lexicographic order, the order in which a dictionary is built.
LexLess(v, w) ==
  LET k == CommonPrefix(v, w) + 1
  IN IF k > Len(w) THEN FALSE ELSE IF k > Len(v) THEN TRUE ELSE v[k] < w[k]

SortedSeq(s) == \A k \in 1..(Len(s) - 1) : ~ LexLess(s[k + 1], s[k])

\* The distinct elements of a sorted sequence, in order: the canonical
\* representation of a dictionary's set of terms.
Distinct(s) ==
  FoldLeft(LAMBDA acc, t : IF acc # <<>> /\ acc[Len(acc)] = t THEN acc ELSE Append(acc, t),
           <<>>, s)

TermSet(s) == {s[k] : k \in 1..Len(s)}

Drop(s, k) == SubSeq(s, k + 1, Len(s))

\* Sorts a finite set of terms.
RECURSIVE SortTerms(_)
SortTerms(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE t \in S : \A u \in S \ {t} : LexLess(t, u)
       IN <<m>> \o SortTerms(S \ {m})
=============================================================================
