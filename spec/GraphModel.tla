----------------------------- MODULE GraphModel -----------------------------
(***************************************************************************)
(* Library judges a dictionary's graph by counting paths and comparing     *)
(* nodes (IsMinimalFor).  Here, on every small graph, that is shown to be  *)
(* the same as the definition by right languages (MinimalFor).             *)
(***************************************************************************)
EXTENDS Library

CONSTANTS Chars, MaxNodes

VARIABLE nodes   \* built from the last node to the first
vars == <<nodes, dicts, iters, files>>

Init == nodes = << >> /\ LibInit

\* A node for every finality and every choice of targets among the later ones.
Labels == SetToSortSeq(Chars, LAMBDA a, b : a < b)
EdgeSeq(f) ==   \* f: label -> 0 (none) or a target
  LET used == SelectSeq(Labels, LAMBDA c : f[c] # 0) IN [k \in 1..Len(used) |-> <<used[k], f[used[k]]>>]

\* Targets are counted from the new node: 1 is the node after it.
Shift(ns) == [k \in 1..Len(ns) |-> <<ns[k][1], [e \in 1..Len(ns[k][2]) |-> <<ns[k][2][e][1], ns[k][2][e][2] + 1>>]>>]

Next == /\ Len(nodes) < MaxNodes
        /\ \E final \in BOOLEAN, f \in [Chars -> 0..Len(nodes)] :
             nodes' = << <<final, EdgeSeq([c \in Chars |-> IF f[c] = 0 THEN 0 ELSE f[c] + 1])>> >> \o Shift(nodes)
        /\ UNCHANGED libVars
Spec == Init /\ [][Next]_vars

Shape == Acyclic(nodes) /\ Deterministic(nodes)
ShapeOK == nodes # << >> => Shape

Agree == nodes # << >> /\ Connected(nodes) =>
  LET lang == Right(nodes)[1]
      same == SortTerms(lang)
      others == {SortTerms(lang \ {t}) : t \in lang} \cup {SortTerms(lang \cup {<<1, 1, 1, 1, 1>>})}
  IN /\ IsMinimalFor(nodes, same) = MinimalFor(nodes, same)
     /\ \A o \in others : ~ IsMinimalFor(nodes, o) /\ ~ MinimalFor(nodes, o)
=============================================================================
