-------------------------------- MODULE Nodes --------------------------------
(***************************************************************************)
(* Dictionary nodes: whether a node is final, and a finite map from labels *)
(* to nodes.  Edges lead from lower to higher numbers.  Replacing the      *)
(* target of an edge destroys the old target.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

VARIABLE nodes    \* number -> [final, edges: label -> number]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NodesInit == nodes = << >>

EdgesOf(id) == {<<a, nodes[id].edges[a]>> : a \in DOMAIN nodes[id].edges}
Targets(id) == {nodes[id].edges[a] : a \in DOMAIN nodes[id].edges}
References(id) == Cardinality({<<k, a>> \in UNION {{k} \X DOMAIN nodes[k].edges : k \in DOMAIN nodes} : nodes[k].edges[a] = id})

\* es: set of <<label, target>>
NewNode(id, final, es) ==
  /\ id \notin DOMAIN nodes
  /\ \A e \in es : e[2] > id /\ e[2] \in DOMAIN nodes
  /\ nodes' = Put(nodes, id, [final |-> final, edges |-> [a \in {e[1] : e \in es} |-> (CHOOSE e \in es : e[1] = a)[2]]])

SetFinal(id, final) == id \in DOMAIN nodes /\ nodes' = [nodes EXCEPT ![id].final = final]

\* gone: the node that is destroyed, or 0.
AddEdge(id, label, target, gone) ==
  /\ id \in DOMAIN nodes /\ target \in DOMAIN nodes /\ id < target
  /\ LET E == nodes[id].edges
         old == IF label \in DOMAIN E /\ E[label] # target THEN E[label] ELSE 0
     IN /\ gone = old
        /\ old # 0 => References(old) = 1
        /\ nodes' = [(IF old = 0 THEN nodes ELSE Del(nodes, old)) EXCEPT ![id].edges = Put(@, label, target)]

Transition(id, label) == IF label \in DOMAIN nodes[id].edges THEN nodes[id].edges[label] ELSE 0

\* Structural equality: the same tree of labels and finality below.  Class of
\* every node, from the highest number down.
Classes ==
  LET ids == SetToSortSeq(DOMAIN nodes, LAMBDA a, b : a > b)
      Signature(rep, k) == <<nodes[k].final, {<<a, rep[nodes[k].edges[a]]>> : a \in DOMAIN nodes[k].edges}>>
      step(acc, k) ==
        LET s == Signature(acc.rep, k)
        IN IF s \in DOMAIN acc.known
           THEN [rep |-> Put(acc.rep, k, acc.known[s]), known |-> acc.known]
           ELSE [rep |-> Put(acc.rep, k, k), known |-> Put(acc.known, s, k)]
  IN FoldLeft(step, [rep |-> << >>, known |-> << >>], ids).rep

Look(id, final, edges, probes) ==
  /\ id \in DOMAIN nodes
  /\ final = nodes[id].final
  /\ Len(edges) = Cardinality(EdgesOf(id))
  /\ {edges[k] : k \in 1..Len(edges)} = EdgesOf(id)
  /\ \A k \in 1..Len(probes) : probes[k][2] = Transition(id, probes[k][1])
  /\ UNCHANGED nodes

Equal(a, b, eq, heq) ==
  /\ a \in DOMAIN nodes /\ b \in DOMAIN nodes
  /\ eq = (Classes[a] = Classes[b])
  /\ eq => heq
  /\ UNCHANGED nodes

\* No edge leads to a node that is not there, and none backwards.
NodesOK == \A id \in DOMAIN nodes : \A t \in Targets(id) : t \in DOMAIN nodes /\ t > id
=============================================================================
