---------------------------- MODULE SubsumeModel ----------------------------
(***************************************************************************)
(* Soundness of subsumption: whenever Subsumes declares a position         *)
(* redundant, everything it still accepts is accepted by the other one.    *)
(* One state per algorithm, query and maximum distance; letters appear in  *)
(* the query for the first time in order.                                  *)
(***************************************************************************)
EXTENDS LevAutomaton

CONSTANTS Chars, MaxQuery, MaxN, MaxWord

VARIABLES alg, q, n
vars == <<alg, q, n>>

Fresh(x) == 1 + Cardinality({x[k] : k \in 1..Len(x)})

Init == alg \in Algorithms /\ q = <<>> /\ n \in 0..MaxN
Next == /\ Len(q) < MaxQuery
        /\ \E c \in Chars : c <= Fresh(q) /\ q' = Append(q, c)
        /\ UNCHANGED <<alg, n>>
Spec == Init /\ [][Next]_vars

Positions == {p \in (0..Len(q)) \X (0..n) \X {0, 1} : ValidPosition(alg, Len(q), n, p)}

Sound ==
  LET L == [p \in Positions |-> {v \in Words(Chars, MaxWord) : Accepts(alg, q, n, p, v)}]
  IN \A a, b \in Positions : Subsumes(alg, a, b, n) => L[b] \subseteq L[a]

\* Removing what is declared redundant keeps the language of a state, in any order of the list.
KeepsLanguage == Len(q) = MaxQuery - 1 =>
  \A a, b, c \in Positions :
    LET st == <<a, b, c>>
        un == Unsubsume(alg, st, n)
    IN \A k \in 1..3 : (\E m \in 1..Len(un) : un[m] = st[k]) \/
                       (\E m \in 1..Len(un) : Subsumes(alg, un[m], st[k], n))
=============================================================================
