---------------------------- MODULE PosListTrace ----------------------------
(* Checks recorded executions of the container against PosList, as         *)
(* LibraryTrace does for Library.  Every event but the looks of iterators  *)
(* carries the whole contents afterwards.                                  *)
EXTENDS PosList, Json

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES sid, l
tvars == <<lists, its, sid, l>>

Init == ListInit /\ sid \in 1..Len(Trace) /\ l = 1

Ev == Trace[sid].ev

Holding(e, A) == A /\ lists'[e.s] = e.list

Step(e) ==
  CASE e.op = "new" -> Holding(e, NewList(e.s, e.ps))
    [] e.op = "add" -> Holding(e, Add(e.s, e.p))
    [] e.op = "front" -> Holding(e, PutFront(e.s, e.p))
    [] e.op = "after" -> Holding(e, After(e.s, e.k, e.p))
    [] e.op = "afterf" -> Holding(e, AfterFree(e.s, e.k, e.p))
    [] e.op = "remove" -> Holding(e, RemoveKth(e.s, e.k))
    [] e.op = "sort" -> Sort(e.s, e.alg, e.list)
    [] e.op = "merge" -> MergeInto(e.s, e.ps, e.list)
    [] e.op = "list" -> Set(e.s, lists[e.s]) /\ lists[e.s] = e.list
    [] e.op = "itnew" -> ItNew(e.it, e.s, e.outer)
    [] e.op = "itnext" -> ItNext(e.it)
    [] e.op = "itremove" -> Holding(e, ItRemove(e.it))
    [] e.op = "itinsert" -> Holding(e, ItInsert(e.it, e.p))
    [] e.op = "look" -> Look(e.it, e.end, e.p)
    [] e.op = "Heap" -> e.grow = 0 /\ UNCHANGED listVars
    [] OTHER -> FALSE

Next ==
  \/ /\ l <= Len(Ev)
     /\ Step(Ev[l])
     /\ l' = l + 1
     /\ sid' = sid
  \/ /\ l > Len(Ev)
     /\ UNCHANGED tvars

Spec == Init /\ [][Next]_tvars
=============================================================================
