------------------------------ MODULE EnumModel ------------------------------
(***************************************************************************)
(* How a dictionary is enumerated: DawgIterator walks the graph breadth-   *)
(* first and tells its end from the number of terms.  Refines iteration 1  *)
(* of Library, for every small dictionary.                                 *)
(***************************************************************************)
EXTENDS Library

CONSTANTS Chars, MaxLen, MaxTerms

VARIABLES phase, pending, value, index
vars == <<phase, pending, value, index, dicts, iters, files>>

TheDict == dicts[1].terms
PathsOf(ts) == UNION {{SubSeq(ts[k], 1, m) : m \in 0..Len(ts[k])} : k \in 1..Len(ts)} \cup {<<>>}
Children(path) == LET P == PathsOf(TheDict)
                      cs == SetToSortSeq({c \in Chars : Append(path, c) \in P}, LAMBDA a, b : a < b)
                  IN [k \in 1..Len(cs) |-> Append(path, cs[k])]
IsFinal(path) == path \in TermSet(TheDict)
NoValue == <<0>>

Init == /\ phase = "dictionary" /\ pending = <<>> /\ value = NoValue /\ index = 0
        /\ dicts = (1 :> Finished(<<>>)) /\ iters = << >> /\ files = << >>

Grow == /\ phase = "dictionary" /\ Len(TheDict) < MaxTerms
        /\ \E t \in Words(Chars, MaxLen) :
             /\ IF TheDict = <<>> THEN TRUE ELSE LexLess(TheDict[Len(TheDict)], t)
             /\ dicts' = (1 :> Finished(Append(TheDict, t)))
        /\ UNCHANGED <<phase, pending, value, index, iters, files>>

RECURSIVE Walk(_, _)
Walk(queue, val) ==
  IF queue = <<>> THEN [pending |-> queue, value |-> val]
  ELSE LET path == Head(queue)
           rest == Tail(queue) \o Children(path)
       IN IF IsFinal(path) THEN [pending |-> rest, value |-> path]
          ELSE Walk(rest, val)

Start == /\ phase = "dictionary" /\ phase' = "iterate"
         /\ LET S == Walk(<< <<>> >>, NoValue) IN pending' = S.pending /\ value' = S.value
         /\ EnumBegin(1, 1)
         /\ UNCHANGED index
Advance == /\ phase = "iterate" /\ index < Len(TheDict)
           /\ LET S == Walk(pending, value) IN pending' = S.pending /\ value' = S.value
           /\ index' = index + 1
           /\ IterNext(1)
           /\ UNCHANGED phase
ReadIt == /\ phase = "iterate" /\ index # Len(TheDict)
          /\ IterRead(1, <<CHOOSE k \in 1..Len(TheDict) : TheDict[k] = value, 0>>)
          /\ UNCHANGED <<phase, pending, value, index>>
Next == Grow \/ Start \/ Advance \/ ReadIt
Spec == Init /\ [][Next]_vars

EndAgrees == phase = "iterate" => (index = Len(TheDict)) = AtEnd(1)
ReadAgrees == phase = "iterate" /\ index # Len(TheDict) =>
  /\ IsFinal(value)
  /\ LET item == <<CHOOSE k \in 1..Len(TheDict) : TheDict[k] = value, 0>>
         I == iters[1]
     IN IF I.pos \in DOMAIN I.shown THEN I.shown[I.pos] = item
        ELSE \A p \in DOMAIN I.shown : I.shown[p] # item
=============================================================================
