----------------------------- MODULE NodesTrace -----------------------------
(* Checks recorded executions of dictionary nodes against Nodes.           *)
EXTENDS Nodes, Json

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES sid, l
tvars == <<nodes, sid, l>>

Init == NodesInit /\ sid \in 1..Len(Trace) /\ l = 1

Ev == Trace[sid].ev

Step(e) ==
  CASE e.op = "node" -> NewNode(e.id, e.final, {e.edges[k] : k \in 1..Len(e.edges)})
    [] e.op = "final" -> SetFinal(e.id, e.final)
    [] e.op = "edge" -> e.self /\ AddEdge(e.id, e.label, e.target, e.gone)
    [] e.op = "look" -> Look(e.id, e.final, e.edges, e.probes)
    [] e.op = "eq" -> Equal(e.id, e.other, e.eq, e.heq)
    [] e.op = "Heap" -> e.grow = 0 /\ UNCHANGED nodes
    [] OTHER -> FALSE

Next ==
  \/ /\ l <= Len(Ev)
     /\ Step(Ev[l])
     /\ l' = l + 1
     /\ sid' = sid
  \/ /\ l > Len(Ev)
     /\ UNCHANGED tvars

Spec == Init /\ [][Next]_tvars
=============================================================================
