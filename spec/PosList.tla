------------------------------- MODULE PosList -------------------------------
(***************************************************************************)
(* The container of automaton positions: a sequence of triples <<index,    *)
(* errors, special>> under the operations it offers, and iterators that    *)
(* insert and remove while they run.                                       *)
(*                                                                         *)
(*   lists  the sequence each container holds                              *)
(*   its    iterators: the container, the place k they are at, whether an  *)
(*          element is there (after a removal, or at the end, none is),    *)
(*          and the iterator around them (-1: none)                        *)
(***************************************************************************)
EXTENDS Edit, TLC

VARIABLES lists, its
listVars == <<lists, its>>

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

ListInit == lists = << >> /\ its = << >>

Holds(l) == {l[k] : k \in 1..Len(l)}
Times(l, x) == Cardinality({k \in 1..Len(l) : l[k] = x})
IsPermutation(a, b) == Len(a) = Len(b) /\ \A x \in Holds(a) \cup Holds(b) : Times(a, x) = Times(b, x)
NoDuplicates(l) == Cardinality(Holds(l)) = Len(l)

\* The order of the algorithms: index, errors, ordinary before special.
Less(alg, a, b) ==
  IF a[1] # b[1] THEN a[1] < b[1]
  ELSE IF a[2] # b[2] THEN a[2] < b[2]
  ELSE alg # STD /\ a[3] < b[3]
Ordered(alg, l) == \A k \in 1..(Len(l) - 1) : ~ Less(alg, l[k + 1], l[k])

Insert(l, k, p) == SubSeq(l, 1, k) \o <<p>> \o SubSeq(l, k + 1, Len(l))   \* p becomes element k+1
Without(l, k) == SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))

\* Operations on the container end the iterators over it.
Others(s) == [i \in {i \in DOMAIN its : its[i].s # s} |-> its[i]]
Set(s, l) == lists' = Put(lists, s, l) /\ its' = Others(s)

NewList(s, ps) == Set(s, ps)
Add(s, p) == s \in DOMAIN lists /\ Set(s, Append(lists[s], p))
PutFront(s, p) == s \in DOMAIN lists /\ Set(s, <<p>> \o lists[s])
\* After the k-th; 0 stands for no element: the member function appends ...
After(s, k, p) == s \in DOMAIN lists /\ Set(s, IF k = 0 THEN Append(lists[s], p) ELSE Insert(lists[s], k, p))
\* ... and the free one prepends.
AfterFree(s, k, p) == s \in DOMAIN lists /\ Set(s, Insert(lists[s], k, p))
RemoveKth(s, k) == s \in DOMAIN lists /\ k \in 1..Len(lists[s]) /\ Set(s, Without(lists[s], k))
Sort(s, alg, res) == s \in DOMAIN lists /\ IsPermutation(lists[s], res) /\ Ordered(alg, res) /\ Set(s, res)
\* Merging is insertion into a set.
MergeInto(s, ps, res) ==
  /\ s \in DOMAIN lists
  /\ NoDuplicates(lists[s])
  /\ NoDuplicates(res)
  /\ Holds(res) = Holds(lists[s]) \cup Holds(ps)
  /\ Set(s, res)

-----------------------------------------------------------------------------
ItNew(i, s, outer) ==
  /\ s \in DOMAIN lists
  /\ outer # -1 => outer \in DOMAIN its /\ its[outer].s = s /\ its[outer].live /\ its[outer].outer = -1
  /\ its' = IF outer = -1
            THEN Put(Others(s), i, [s |-> s, k |-> 1, live |-> lists[s] # <<>>, moved |-> TRUE, outer |-> -1])
            ELSE Put(its, i, [s |-> s, k |-> its[outer].k, live |-> TRUE, moved |-> FALSE, outer |-> outer])
  /\ UNCHANGED lists

Inside(i) == {j \in DOMAIN its : its[j].outer = i}

\* Advancing ends the iterators inside.
ItNext(i) ==
  /\ i \in DOMAIN its
  /\ LET I == its[i]
         k == IF I.live THEN I.k + 1 ELSE I.k
     IN its' = Put([j \in DOMAIN its \ Inside(i) |-> its[j]], i,
                   [I EXCEPT !.k = k, !.live = k <= Len(lists[I.s]), !.moved = TRUE])
  /\ UNCHANGED lists

Free(i) == i \in DOMAIN its /\ its[i].live /\ its[i].moved /\ Inside(i) = {}

ItRemove(i) ==
  /\ Free(i)
  /\ lists' = [lists EXCEPT ![its[i].s] = Without(@, its[i].k)]
  /\ its' = [its EXCEPT ![i].live = FALSE]

ItInsert(i, p) ==
  /\ Free(i)
  /\ lists' = [lists EXCEPT ![its[i].s] = Insert(@, its[i].k, p)]
  /\ UNCHANGED its

\* What an iterator shows after it was made or advanced.
Look(i, end, p) ==
  /\ i \in DOMAIN its
  /\ end = ~ its[i].live
  /\ p = IF its[i].live THEN lists[its[i].s][its[i].k] ELSE <<>>
  /\ UNCHANGED listVars

-----------------------------------------------------------------------------
ListOK ==
  /\ \A i \in DOMAIN its :
       LET I == its[i]
       IN /\ I.s \in DOMAIN lists
          /\ I.k \in 1..(Len(lists[I.s]) + 1)
          /\ I.live => I.k <= Len(lists[I.s])
          /\ I.outer # -1 => I.outer \in DOMAIN its /\ its[I.outer].live /\ its[I.outer].k <= I.k
=============================================================================
