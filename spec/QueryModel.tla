----------------------------- MODULE QueryModel -----------------------------
(***************************************************************************)
(* How a search walks: LazyQuery intersects the dictionary with the        *)
(* Levenshtein automaton breadth-first, one candidate per advance().  The  *)
(* user tests for the end, reads and advances in any order; `iters` is     *)
(* Library's view of the same iteration, and the invariants say that what  *)
(* the walk shows is what Library allows: a refinement of iteration 1.     *)
(*                                                                         *)
(* Dictionary nodes are represented by the prefixes that lead to them (the *)
(* walk never compares nodes).                                             *)
(***************************************************************************)
EXTENDS LevAutomaton, Library

CONSTANTS Chars, MaxTermLen, MaxTerms, MaxQuery, MaxN, Algs

VARIABLES phase, alg, q, n,
          pending,    \* queue of [path, state]
          edges,      \* queue of labels still to follow from cur
          cur,        \* the intersection whose edges are followed
          complete, candidate,
          steps       \* how often advance was called, bounded
vars == <<phase, alg, q, n, pending, edges, cur, complete, candidate, steps, dicts, iters, files>>

TheDict == dicts[1].terms
PathsOf(ts) == UNION {{SubSeq(ts[k], 1, m) : m \in 0..Len(ts[k])} : k \in 1..Len(ts)} \cup {<<>>}
Labels(path) == LET P == PathsOf(TheDict)
                IN SetToSortSeq({c \in Chars : Append(path, c) \in P}, LAMBDA a, b : a < b)
IsFinal(path) == path \in TermSet(TheDict)
IndexIn(path) == CHOOSE k \in 1..Len(TheDict) : TheDict[k] = path

Nothing == <<0, 0>>

Init == /\ phase = "dictionary" /\ alg \in Algs /\ n \in 0..MaxN /\ q = <<>>
        /\ pending = <<>> /\ edges = <<>> /\ cur = [path |-> <<>>, state |-> <<>>]
        /\ complete = FALSE /\ candidate = Nothing /\ steps = 0
        /\ dicts = (1 :> Finished(<<>>)) /\ iters = << >> /\ files = << >>

\* Choosing a dictionary and a query, letter by letter.
Grow == /\ phase = "dictionary" /\ Len(TheDict) < MaxTerms
        /\ \E t \in Words(Chars, MaxTermLen) :
             /\ IF TheDict = <<>> THEN TRUE ELSE LexLess(TheDict[Len(TheDict)], t)
             /\ dicts' = (1 :> Finished(Append(TheDict, t)))
        /\ UNCHANGED <<phase, alg, q, n, pending, edges, cur, complete, candidate, steps, iters, files>>
Type == /\ phase \in {"dictionary", "query"} /\ Len(q) < MaxQuery
        /\ \E c \in Chars : q' = Append(q, c)
        /\ phase' = "query"
        /\ UNCHANGED <<alg, n, pending, edges, cur, complete, candidate, steps, dicts, iters, files>>

(* advance(): runs until there is a candidate or nothing is left.           *)
RECURSIVE Walk(_)
Walk(S) ==
  IF S.edges = <<>> /\ S.pending = <<>> THEN [S EXCEPT !.complete = TRUE]
  ELSE IF S.edges = <<>>
  THEN Walk([S EXCEPT !.cur = Head(S.pending), !.pending = Tail(S.pending), !.edges = Labels(Head(S.pending).path)])
  ELSE
    LET c == Head(S.edges)
        path == Append(S.cur.path, c)
        st == StepState(alg, q, n, S.cur.state, c)
        T == [S EXCEPT !.edges = Tail(S.edges), !.pending = IF st = <<>> THEN @ ELSE Append(@, [path |-> path, state |-> st])]
        dist == StateDistance(alg, st, Len(q))
    IN IF st # <<>> /\ IsFinal(path) /\ dist # Unbounded /\ dist <= n
       THEN [T EXCEPT !.complete = FALSE, !.candidate = <<IndexIn(path), dist>>]
       ELSE Walk(T)

Now == [pending |-> pending, edges |-> edges, cur |-> cur, complete |-> complete, candidate |-> candidate]
Becomes(S) == /\ pending' = S.pending /\ edges' = S.edges /\ cur' = S.cur
              /\ complete' = S.complete /\ candidate' = S.candidate

Start == /\ phase \in {"dictionary", "query"}
         /\ phase' = "search"
         /\ LET S == [Now EXCEPT !.pending = <<[path |-> <<>>, state |-> Initial]>>]
            IN Becomes(IF IsFinal(<<>>) /\ Len(q) <= n
                       THEN [S EXCEPT !.candidate = <<IndexIn(<<>>), Len(q)>>]
                       ELSE Walk(S))
         /\ SearchBegin(1, alg, 1, q, n)
         /\ UNCHANGED <<alg, q, n, steps>>

ReadIt == /\ phase = "search" /\ ~ complete
          /\ IterRead(1, candidate)
          /\ UNCHANGED <<phase, alg, q, n, pending, edges, cur, complete, candidate, steps>>

Advance == /\ phase = "search" /\ steps < MaxTerms + 2
           /\ steps' = steps + 1
           /\ Becomes(Walk(Now))
           /\ IterNext(1)
           /\ UNCHANGED <<phase, alg, q, n>>

Next == Grow \/ Type \/ Start \/ ReadIt \/ Advance
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Searching == phase = "search"
EndAgrees == Searching => complete = AtEnd(1)
\* The candidate may be read: Library allows it (again, if it was read before).
ReadAgrees == Searching /\ ~ complete =>
  LET I == iters[1]
  IN IF I.pos \in DOMAIN I.shown THEN I.shown[I.pos] = candidate
     ELSE candidate \in I.todo /\ \A p \in DOMAIN I.shown : I.shown[p] # candidate
\* The walk only keeps what can still lead somewhere.
Alive == \A k \in 1..Len(pending) : pending[k].state # <<>> /\ Viable(alg, pending[k].path, q, n)
=============================================================================
