------------------------------ MODULE EditModel ------------------------------
(***************************************************************************)
(* What Edit!Dist means.  Every pair of words over Chars up to MaxLen is a *)
(* state; the invariants tie the row-by-row computation to                 *)
(*   - edit scripts: alignments whose elementary operations do not overlap *)
(*   - rewriting: one elementary operation applied to a whole word         *)
(*   - the recursion of src/liblevenshtein/distance (with its memo keys)   *)
(* and check the metric axioms, and that only equality of characters       *)
(* matters.                                                                *)
(***************************************************************************)
EXTENDS Edit, TLC

CONSTANTS Chars, MaxLen

VARIABLES alg, v, w
vars == <<alg, v, w>>

Init == alg \in Algorithms /\ v = <<>> /\ w = <<>>

Next == \/ Len(v) < MaxLen /\ w = <<>> /\ \E c \in Chars : v' = Append(v, c) /\ UNCHANGED <<alg, w>>
        \/ Len(w) < MaxLen /\ \E c \in Chars : w' = Append(w, c) /\ UNCHANGED <<alg, v>>

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Edit scripts.  The cheapest alignment of a and b, operation by operation *)
(* from the left; no character takes part in two operations.                *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Script(_, _, _)
Script(A, a, b) ==
  IF a = <<>> /\ b = <<>> THEN 0
  ELSE MinOf(
    (IF a # <<>> THEN {1 + Script(A, Tail(a), b)} ELSE {}) \cup               \* deletion
    (IF b # <<>> THEN {1 + Script(A, a, Tail(b))} ELSE {}) \cup               \* insertion
    (IF a # <<>> /\ b # <<>>
     THEN {(IF a[1] = b[1] THEN 0 ELSE 1) + Script(A, Tail(a), Tail(b))} ELSE {}) \cup
    (IF A = TRA /\ Len(a) > 1 /\ Len(b) > 1 /\ a[1] = b[2] /\ a[2] = b[1]
     THEN {1 + Script(A, Drop(a, 2), Drop(b, 2))} ELSE {}) \cup               \* transposition
    (IF A = MAS /\ Len(a) > 1 /\ b # <<>>
     THEN {1 + Script(A, Drop(a, 2), Tail(b))} ELSE {}) \cup                  \* merge
    (IF A = MAS /\ a # <<>> /\ Len(b) > 1
     THEN {1 + Script(A, Tail(a), Drop(b, 2))} ELSE {}))                      \* split

ScriptOK == Dist(alg, v, w) = Script(alg, v, w)

-----------------------------------------------------------------------------
(* Rewriting: every word that one operation makes of x. *)
Splice(x, k, n, y) == SubSeq(x, 1, k - 1) \o y \o SubSeq(x, k + n, Len(x))

OneOp(A, x) ==
  {Splice(x, k, 0, <<c>>) : k \in 1..(Len(x) + 1), c \in Chars} \cup
  {Splice(x, k, 1, <<>>) : k \in 1..Len(x)} \cup
  {Splice(x, k, 1, <<c>>) : k \in 1..Len(x), c \in Chars} \cup
  (IF A = TRA THEN {Splice(x, k, 2, <<x[k + 1], x[k]>>) : k \in 1..(Len(x) - 1)} ELSE {}) \cup
  (IF A = MAS THEN {Splice(x, k, 2, <<c>>) : k \in 1..(Len(x) - 1), c \in Chars} \cup
                   {Splice(x, k, 1, <<c, d>>) : k \in 1..Len(x), c \in Chars, d \in Chars} ELSE {})

\* A word at distance d is one operation away from a word at distance d-1 ...
Reachable == v # w => \E x \in OneOp(alg, w) : Dist(alg, v, x) = Dist(alg, v, w) - 1
\* ... and no operation brings a word nearer by more than one, so that d is
\* the least number of rewriting steps.  (Not so for transpositions, where a
\* character must not be edited twice.)
NoShortcut == alg # TRA => \A x \in OneOp(alg, w) : Dist(alg, v, x) <= Dist(alg, v, w) + 1

-----------------------------------------------------------------------------
(* The recursion of the distance functions, between(v, w): equal first      *)
(* characters are discarded, and the branches stop at a zero.               *)
RECURSIVE Between(_, _, _)
Between(A, a, b) ==
  IF a = <<>> THEN Len(b)
  ELSE IF b = <<>> THEN Len(a)
  ELSE IF a[1] = b[1] THEN
    IF Len(a) = 1 THEN Len(b) - 1
    ELSE IF Len(b) = 1 THEN Len(a) - 1
    ELSE Between(A, Tail(a), Tail(b))
  ELSE
    1 + MinOf({Between(A, Tail(a), b), Between(A, a, Tail(b)), Between(A, Tail(a), Tail(b))} \cup
         (IF A = TRA /\ Len(a) > 1 /\ Len(b) > 1 /\ a[1] = b[2] /\ a[2] = b[1]
          THEN {Between(A, Drop(a, 2), Drop(b, 2))} ELSE {}) \cup
         (IF A = MAS /\ Len(b) > 1 THEN {Between(A, Tail(a), Drop(b, 2))} ELSE {}) \cup
         (IF A = MAS /\ Len(a) > 1 THEN {Between(A, Drop(a, 2), Tail(b))} ELSE {}))

BetweenOK == Between(alg, v, w) = Dist(alg, v, w)

-----------------------------------------------------------------------------
(* Axioms *)
Identity == (Dist(alg, v, w) = 0) = (v = w)
Symmetry == Rows(alg, v, w)[2][Len(v) + 1] = Rows(alg, w, v)[2][Len(w) + 1]
Invariance == \A c \in Chars : /\ Dist(alg, <<c>> \o v, <<c>> \o w) = Dist(alg, v, w)
                               /\ Dist(alg, v \o <<c>>, w \o <<c>>) = Dist(alg, v, w)
TriangleOK == alg # TRA => \A u \in Words(Chars, MaxLen - 1) : Dist(alg, v, w) <= Dist(alg, v, u) + Dist(alg, u, w)
LengthBounds == /\ Dist(alg, v, w) <= Mx(Len(v), Len(w))
                /\ Len(v) - Len(w) <= Dist(alg, v, w)
\* More operations never make it dearer.
Order == alg # STD => Dist(alg, v, w) <= Dist(STD, v, w)

Rename(f, x) == [k \in 1..Len(x) |-> f[x[k]]]
Renaming == \A f \in Permutations(Chars) : Dist(alg, Rename(f, v), Rename(f, w)) = Dist(alg, v, w)

\* The known finding: without double edits, transposition is no metric.
ASSUME LET ca == <<3, 1>>  ac == <<1, 3>>  abc == <<1, 2, 3>>
       IN /\ Dist(TRA, ca, ac) = 1 /\ Dist(TRA, ac, abc) = 1 /\ Dist(TRA, ca, abc) = 3
=============================================================================
