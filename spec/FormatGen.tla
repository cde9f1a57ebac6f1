------------------------------ MODULE FormatGen ------------------------------
(***************************************************************************)
(* Every small graph another program might write into a dictionary file:   *)
(* minimal or not, every node reachable and useful.  Each is printed as a  *)
(* script; the terms it stands for are left to Library.                    *)
(***************************************************************************)
EXTENDS Library

CONSTANTS Chars, MaxNodes

VARIABLE nodes   \* built from the last node to the first, as in GraphModel
vars == <<nodes, dicts, iters, files>>

Labels == SetToSortSeq(Chars, LAMBDA a, b : a < b)
EdgeSeq(f) ==
  LET used == SelectSeq(Labels, LAMBDA c : f[c] # 0) IN [k \in 1..Len(used) |-> <<used[k], f[used[k]]>>]
Shift(ns) == [k \in 1..Len(ns) |-> <<ns[k][1], [e \in 1..Len(ns[k][2]) |-> <<ns[k][2][e][1], ns[k][2][e][2] + 1>>]>>]

Init == nodes = << >> /\ LibInit
Next == /\ Len(nodes) < MaxNodes
        /\ \E final \in BOOLEAN, f \in [Chars -> 0..Len(nodes)] :
             nodes' = << <<final, EdgeSeq([c \in Chars |-> IF f[c] = 0 THEN 0 ELSE f[c] + 1])>> >> \o Shift(nodes)
        /\ UNCHANGED libVars
Spec == Init /\ [][Next]_vars

\* Nodes that lead nowhere never become useful again.
Useful(ns) == \A k \in 1..Len(ns) : Right(ns)[k] # {}
Prune == nodes' # << >> => Useful(nodes') \/ Len(nodes') = 1

Letter(x) == CASE x = 1 -> "61" [] x = 2 -> "ff" [] x = 3 -> "00"
Shown(node) ==
  FoldLeft(LAMBDA acc, e : acc \o "," \o Letter(e[1]) \o ">" \o ToString(e[2]), IF node[1] THEN "1" ELSE "0", node[2])
Script == FoldLeft(LAMBDA acc, n : acc \o " " \o Shown(n), "", nodes)

Whole == Len(nodes) > 0 /\ Connected(nodes) /\ (Useful(nodes) \/ Len(nodes) = 1)
Emit == Whole => PrintT("SCRIPT " \o Script)

\* The terms can be told from the graph (what PutMessage relies on).
Lang == Whole =>
  LET T == SortTerms(Right(nodes)[1])
  IN AcceptsTerms(nodes, T) /\ Cardinality(Right(nodes)[1]) = PathCounts(nodes)[Len(nodes)]
=============================================================================
