---------------------------- MODULE LibraryTrace ----------------------------
(***************************************************************************)
(* Checks recorded executions against Library.  trace.ndjson has one       *)
(* session per line: [s |-> number, ev |-> sequence of events].  Sessions  *)
(* are independent behaviours, explored in parallel.  Every event must be  *)
(* a step of Library with the recorded arguments and results; otherwise    *)
(* TLC reports a deadlock at that event (and any invariant of Library that *)
(* fails on the way).                                                      *)
(***************************************************************************)
EXTENDS Library, Json

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES sid, l
tvars == <<dicts, iters, files, sid, l>>

Init == LibInit /\ sid \in 1..Len(Trace) /\ l = 1

Ev == Trace[sid].ev

\* A group of calls of the same kind that change nothing, logged as one event.
All(seq, P(_)) == /\ Guard(\A k \in 1..Len(seq) : P(seq[k]))
                  /\ UNCHANGED libVars

Step(e) ==
  CASE e.op = "Build" -> Build(e.d, e.seq, e.ok)
    [] e.op = "Open" -> Open(e.d)
    [] e.op = "Add" -> Add(e.d, e.t, e.ok)
    [] e.op = "Finish" -> Finish(e.d)
    [] e.op = "Drop" -> DropDict(e.d)
    [] e.op = "Contains" ->
         /\ Ready(e.d)
         /\ \E T \in {TermSet(dicts[e.d].terms)} : All(e.probes, LAMBDA p : p[2] = (p[1] \in T))
    [] e.op = "Size" -> Size(e.d, e.n)
    [] e.op = "Remove" -> RemoveTerm(e.d, e.t, e.ok)
    [] e.op = "Equal" -> Equal(e.d, e.d2, e.eq, e.heq)
    [] e.op = "Graph" -> Graph(e.d, e.nodes)
    [] e.op = "Search" ->
         \* the same query with several maximum distances and result types
         /\ Ready(e.d)
         /\ Guard(\E top \in {Answer(e.alg, dicts[e.d].terms, e.q, e.nmax)} :
                    \A k \in 1..Len(e.runs) :
                      LET r == e.runs[k]
                          todo == {p \in top : p[2] <= r.n}
                      IN IF r.kind = "c" THEN IsOrderOf(r.res, todo)
                         ELSE IsOrderOf(r.res, {p[1] : p \in todo}))
         /\ UNCHANGED libVars
    [] e.op = "SearchTerms" -> SearchTerms(e.alg, e.d, e.q, e.n, e.res)
    [] e.op = "Enum" -> Enumerate(e.d, e.res)
    [] e.op = "SearchBegin" -> SearchBegin(e.it, e.alg, e.d, e.q, e.n)
    [] e.op = "EnumBegin" -> EnumBegin(e.it, e.d)
    [] e.op = "IterEnd" -> IterEnd(e.it, e.b)
    [] e.op = "IterRead" -> IterRead(e.it, e.item)
    [] e.op = "IterReadTerm" -> \E i \in iters[e.it].todo : i[1] = e.item /\ IterRead(e.it, i)
    [] e.op = "IterNext" -> IterNext(e.it)
    [] e.op = "IterCopy" -> IterCopy(e.it, e.to)
    [] e.op = "IterDrop" -> IterDrop(e.it)
    [] e.op = "Explore" -> Explore(e.alg, e.d, e.q, e.n, e.res, e.seen)
    [] e.op = "SearchOnDemand" -> SearchOnDemand(e.alg, e.d, e.q, e.n, e.items, e.seen)
    [] e.op = "EnumOnDemand" -> EnumOnDemand(e.d, e.items, e.seen)
    [] e.op = "Lookup" -> Lookup(e.d, e.t, e.b, e.seen)
    [] e.op = "Below" -> Below(e.d, e.d2, e.t, e.ok)
    [] e.op = "HandMade" -> HandMade(e.d, e.nodes)
    [] e.op = "Dist" -> All(e.pairs, LAMBDA p : p[3] = Dist(e.alg, p[1], p[2]))
    [] e.op = "Axioms" -> All(e.cases, LAMBDA p : Axioms(e.alg, p[1], p[2], p[3], p[4], p[5]))
    [] e.op = "Heap" -> Heap(e.grow)
    [] e.op = "Ser" -> Serialize(e.d, e.f, e.all, e.ok)
    [] e.op = "Des" -> Deserialize(e.f, e.d, e.ok)
    [] e.op = "Tear" -> Tear(e.f, e.lossless)
    [] e.op = "AnyGraph" -> AnyGraph(e.d, e.nodes)
    [] e.op = "Message" -> Message(e.d, e.nodes, e.size)
    [] e.op = "PutMessage" -> PutMessage(e.f, e.nodes)
    [] e.op = "RemoveFile" -> RemoveFile(e.f)
    [] e.op = "CopyFile" -> CopyFile(e.f, e.g)
    [] OTHER -> FALSE

Next ==
  \/ /\ l <= Len(Ev)
     /\ Step(Ev[l])
     /\ l' = l + 1
     /\ sid' = sid
  \/ /\ l > Len(Ev)
     /\ UNCHANGED tvars

Spec == Init /\ [][Next]_tvars
=============================================================================
