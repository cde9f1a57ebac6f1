------------------------------ MODULE NodesGen ------------------------------
(* Every transition of Nodes over a few nodes and labels, printed as a     *)
(* script that leads to it, followed by comparisons of all nodes.          *)
EXTENDS Nodes

CONSTANTS MaxNode, Labels

VARIABLE hist
gvars == <<nodes, hist>>

N(k) == ToString(k)
B(b) == IF b THEN "1" ELSE "0"
Do(A, text) == A /\ hist' = Append(hist, text)

Init == NodesInit /\ hist = <<>>
Next ==
  \/ \E id \in 1..MaxNode \ DOMAIN nodes, f \in BOOLEAN : Do(NewNode(id, f, {}), "node " \o N(id) \o " " \o B(f))
  \/ \E id \in 1..MaxNode \ DOMAIN nodes, t \in DOMAIN nodes, a \in Labels :
       t > id /\ Do(NewNode(id, FALSE, {<<a, t>>}), "node " \o N(id) \o " 0 " \o N(a) \o " " \o N(t))
  \/ \E id \in DOMAIN nodes, f \in BOOLEAN : Do(SetFinal(id, f), "final " \o N(id) \o " " \o B(f))
  \/ \E id \in DOMAIN nodes, t \in DOMAIN nodes, a \in Labels :
       t > id /\ \E gone \in {0} \cup DOMAIN nodes : Do(AddEdge(id, a, t, gone), "edge " \o N(id) \o " " \o N(a) \o " " \o N(t))

Spec == Init /\ [][Next]_gvars
View == nodes
Pairs == SetToSeq({<<a, b>> \in (1..MaxNode) \X (1..MaxNode) : a <= b})
Tour == FoldLeft(LAMBDA acc, p : acc \o ";eq " \o N(p[1]) \o " " \o N(p[2]), "", Pairs)
Script(h) == FoldLeft(LAMBDA acc, c : IF acc = "" THEN c ELSE acc \o ";" \o c, "", h)
Emit == PrintT("SCRIPT " \o Script(hist') \o Tour)
=============================================================================
