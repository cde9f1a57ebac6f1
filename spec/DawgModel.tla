------------------------------ MODULE DawgModel ------------------------------
(***************************************************************************)
(* How SortedDawg builds a dictionary: nodes on a heap, the transitions of *)
(* the last term that are not yet checked for redundancy, the table of     *)
(* minimized nodes (keyed by a copy of the node, compared structurally)    *)
(* and the set of nodes to free if they turn out redundant.  Terms come in *)
(* any order, so that refusal is explored as well.                         *)
(*                                                                         *)
(* Checked: what is built is the minimal automaton of the terms, whatever  *)
(* their order of arrival (sorted_dawg refuses or builds); every node is   *)
(* freed exactly once; no freed node is ever in use.                       *)
(***************************************************************************)
EXTENDS Library

CONSTANTS Chars, MaxLen, MaxTerms, Dups

VARIABLES heap,       \* node id -> [final, edges]; edges: label -> node id
          unchecked,  \* stack of [label, source, target], bottom first
          minimized,  \* set of [key, node]; key is a copy of a node
          floating, freed, prev, size, phase,
          given       \* the terms accepted so far (history)
vars == <<heap, unchecked, minimized, floating, freed, prev, size, phase, given, dicts, iters, files>>

Root == 1
NewNode == [final |-> FALSE, edges |-> << >>]

Init == /\ heap = (Root :> NewNode) /\ unchecked = <<>> /\ minimized = {} /\ floating = {} /\ freed = {}
        /\ prev = <<>> /\ size = 0 /\ phase = "open" /\ given = <<>>
        /\ LibInit

-----------------------------------------------------------------------------
(* Structural equality of nodes, as DawgNode::operator== and the hash table *)
(* see it.                                                                  *)
RECURSIVE Same(_, _, _)
Same(h, a, b) ==
  /\ a.final = b.final
  /\ DOMAIN a.edges = DOMAIN b.edges
  /\ \A c \in DOMAIN a.edges : Same(h, h[a.edges[c]], h[b.edges[c]])

\* minimize(lower): pops transitions until only lower are left.
RECURSIVE Minimize(_, _)
Minimize(S, lower) ==
  IF Len(S.unchecked) <= lower THEN S
  ELSE
    LET t == S.unchecked[Len(S.unchecked)]
        target == S.heap[t.target]
        same == {m \in S.minimized : Same(S.heap, m.key, target)}
        to == IF same = {} THEN t.target ELSE (CHOOSE m \in same : TRUE).node
        old == S.heap[t.source].edges
        over == IF t.label \in DOMAIN old /\ old[t.label] # to THEN {old[t.label]} ELSE {}
    IN Minimize([heap |-> [S.heap EXCEPT ![t.source].edges = Put(@, t.label, to)],
                 unchecked |-> SubSeq(S.unchecked, 1, Len(S.unchecked) - 1),
                 minimized |-> IF same = {} THEN S.minimized \cup {[key |-> target, node |-> t.target]} ELSE S.minimized,
                 deleted |-> S.deleted \cup over], lower)

Extend(S, term, from) ==
  FoldLeft(LAMBDA T, k :
             LET id == Cardinality(DOMAIN T.heap) + 1
                 source == IF T.unchecked = <<>> THEN Root ELSE T.unchecked[Len(T.unchecked)].target
             IN [heap |-> Put(T.heap, id, [NewNode EXCEPT !.final = (k = Len(term))]),
                 unchecked |-> Append(T.unchecked, [label |-> term[k], source |-> source, target |-> id]),
                 new |-> T.new \cup {id}],
           [heap |-> S.heap, unchecked |-> S.unchecked, new |-> {}],
           [k \in 1..(Len(term) - from) |-> from + k])

Refuse(t) ==
  /\ phase = "open" /\ LexLess(t, prev)
  /\ phase' = "refused"
  /\ UNCHANGED <<heap, unchecked, minimized, floating, freed, prev, size, given, dicts, iters, files>>

AddEmpty ==
  /\ phase = "open" /\ prev = <<>> /\ (Dups \/ given = <<>>)
  /\ heap' = [heap EXCEPT ![Root].final = TRUE]
  /\ size' = IF heap[Root].final THEN size ELSE size + 1
  /\ given' = Append(given, <<>>)
  /\ UNCHANGED <<unchecked, minimized, floating, freed, prev, phase, dicts, iters, files>>

AddAgain(t) ==
  /\ phase = "open" /\ Dups /\ t # <<>> /\ t = prev
  /\ given' = Append(given, t)
  /\ UNCHANGED <<heap, unchecked, minimized, floating, freed, prev, size, phase, dicts, iters, files>>

AddNew(t) ==
  /\ phase = "open" /\ LexLess(prev, t)
  /\ LET k == CommonPrefix(prev, t)
         S == Minimize([heap |-> heap, unchecked |-> unchecked, minimized |-> minimized, deleted |-> {}], k)
         T == Extend(S, t, k)
         end == IF k = Len(t) THEN (IF T.unchecked = <<>> THEN Root ELSE T.unchecked[Len(T.unchecked)].target) ELSE 0
     IN /\ heap' = IF end = 0 THEN T.heap ELSE [T.heap EXCEPT ![end].final = TRUE]
        /\ unchecked' = T.unchecked
        /\ minimized' = S.minimized
        /\ floating' = floating \cup T.new
        /\ freed' = freed \cup S.deleted
  /\ prev' = t /\ size' = size + 1 /\ given' = Append(given, t)
  /\ UNCHANGED <<phase, dicts, iters, files>>

Close ==
  /\ phase = "open"
  /\ LET S == Minimize([heap |-> heap, unchecked |-> unchecked, minimized |-> minimized, deleted |-> {}], 0)
     IN heap' = S.heap /\ unchecked' = S.unchecked /\ minimized' = S.minimized /\ freed' = freed \cup S.deleted
  /\ phase' = "finished"
  /\ UNCHANGED <<floating, prev, size, given, dicts, iters, files>>

RECURSIVE Reach(_, _, _)
Reach(h, seen, todo) ==
  IF todo = {} THEN seen
  ELSE Reach(h, seen \cup todo, UNION {{h[k].edges[c] : c \in DOMAIN h[k].edges} : k \in todo} \ (seen \cup todo))
AllNodes == Reach(heap, {}, {Root})

\* clean_up: frees what is not in the graph.
CleanUp ==
  /\ phase \in {"finished", "refused"}
  /\ freed' = freed \cup (floating \ AllNodes)
  /\ floating' = {}
  /\ unchecked' = <<>> /\ minimized' = {}
  /\ phase' = IF phase = "finished" THEN "built" ELSE "dying"
  /\ UNCHANGED <<heap, prev, size, given, dicts, iters, files>>

Destroy ==
  /\ phase \in {"built", "dying"}
  /\ freed' = freed \cup AllNodes
  /\ phase' = "gone"
  /\ UNCHANGED <<heap, unchecked, minimized, floating, prev, size, given, dicts, iters, files>>

Next == \/ Len(given) < MaxTerms /\ (AddEmpty \/ \E t \in Words(Chars, MaxLen) : AddAgain(t) \/ AddNew(t))
        \/ \E t \in Words(Chars, MaxLen) : Refuse(t)
        \/ Close \/ CleanUp \/ Destroy
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The graph in the form in which Library judges it. *)
RECURSIVE Height(_, _)
Height(h, k) ==
  LET below == {Height(h, h[k].edges[c]) : c \in DOMAIN h[k].edges}
  IN IF below = {} THEN 0 ELSE 1 + (CHOOSE x \in below : \A y \in below : y <= x)

Numbered ==
  LET all == AllNodes
      hs == [k \in all |-> Height(heap, k)]
      order == SetToSortSeq(all, LAMBDA a, b : hs[a] > hs[b] \/ (hs[a] = hs[b] /\ a < b))
      num == [k \in all |-> CHOOSE m \in 1..Len(order) : order[m] = k]
  IN [m \in 1..Len(order) |->
        LET node == heap[order[m]]
            labels == SetToSortSeq(DOMAIN node.edges, LAMBDA a, b : a < b)
        IN <<node.final, [e \in 1..Len(labels) |-> <<labels[e], num[node.edges[labels[e]]]>>]>>]

Terms == Distinct(given)

Minimal == phase = "built" =>
  /\ Acyclic(Numbered) /\ Deterministic(Numbered) /\ Connected(Numbered)
  /\ MinimalFor(Numbered, Terms)
  /\ IsMinimalFor(Numbered, Terms)

SizeOK == size = Len(Terms)

\* The unchecked transitions spell the last term, and the table holds minimized
\* nodes only: what the next step relies on.
Spelling == phase = "open" =>
  /\ Len(unchecked) = Len(prev)
  /\ \A k \in 1..Len(unchecked) : unchecked[k].label = prev[k]
  /\ \A k \in 2..Len(unchecked) : unchecked[k].source = unchecked[k - 1].target
  /\ unchecked # <<>> => unchecked[1].source = Root
  /\ \A m \in minimized : heap[m.node] = m.key

NoDangling == phase # "gone" =>
  /\ freed \cap AllNodes = {}
  /\ \A m \in minimized : m.node \notin freed
  /\ \A k \in 1..Len(unchecked) : unchecked[k].source \notin freed /\ unchecked[k].target \notin freed
  /\ floating \cap freed = {}

AllFreed == phase = "gone" => freed = DOMAIN heap
\* Nothing is freed twice: clean_up and the destructor free disjoint sets.
OnceEach == phase \in {"built", "dying"} => freed \cap AllNodes = {}
=============================================================================
