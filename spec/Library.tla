------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The observable behaviour of liblevenshtein: one action per public call, *)
(* with the call's arguments and its result as parameters.  An action is   *)
(* enabled exactly for the results a correct implementation may give.      *)
(*                                                                         *)
(*   dicts  dictionaries: their terms as a sorted sequence without         *)
(*          duplicates, and whether terms can still be added               *)
(*   iters  running iterations (searches and enumerations): what they have *)
(*          to yield, how often they were advanced, what they have shown   *)
(*   files  serialized dictionaries on disk or in memory                   *)
(*                                                                         *)
(* Crashes, hangs, exceptions, data races and leaks are not actions: a     *)
(* trace that contains one is not a behaviour of this specification.       *)
(***************************************************************************)
EXTENDS Edit, TLC

VARIABLES dicts, iters, files
libVars == <<dicts, iters, files>>

Absent == [state |-> "absent", terms |-> <<>>]

LibInit == dicts = << >> /\ iters = << >> /\ files = << >>

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

-----------------------------------------------------------------------------
(* Dictionaries.  loose: the graph may have nodes that lead to no term. *)

Finished(ts) == [terms |-> ts, open |-> FALSE, loose |-> FALSE]

\* sorted_dawg(first, last): ok is whether the result is not null.
Build(d, seq, ok) ==
  /\ Guard(ok = SortedSeq(seq))
  /\ dicts' = IF ok THEN Put(dicts, d, Finished(Distinct(seq))) ELSE dicts
  /\ UNCHANGED <<iters, files>>

\* The same, step by step: construction and init ...
Open(d) ==
  /\ dicts' = Put(dicts, d, [terms |-> <<>>, open |-> TRUE, loose |-> FALSE])
  /\ UNCHANGED <<iters, files>>

\* ... add, which is refused if it breaks the order or comes too late ...
Add(d, t, ok) ==
  /\ LET D == dicts[d]
         last == IF D.terms = <<>> THEN <<>> ELSE D.terms[Len(D.terms)]
     IN /\ ok = (D.open /\ ~ LexLess(t, last))
        /\ dicts' = IF ok /\ (D.terms = <<>> \/ t # last)
                    THEN Put(dicts, d, [D EXCEPT !.terms = Append(@, t)]) ELSE dicts
  /\ UNCHANGED <<iters, files>>

\* ... and finish with clean_up.
Finish(d) ==
  /\ dicts[d].open
  /\ dicts' = Put(dicts, d, Finished(dicts[d].terms))
  /\ UNCHANGED <<iters, files>>

Ready(d) == d \in DOMAIN dicts /\ ~ dicts[d].open

Member(d, t, b) ==
  /\ Ready(d)
  /\ Guard(b = (t \in TermSet(dicts[d].terms)))
  /\ UNCHANGED libVars

Size(d, n) == Ready(d) /\ n = Len(dicts[d].terms) /\ UNCHANGED libVars

\* remove is a placeholder that never removes anything.
RemoveTerm(d, t, ok) == Ready(d) /\ ok = FALSE /\ UNCHANGED libVars

\* Terms that are equal, in the order in which they are compared.
Equal(d1, d2, eq, hashEq) ==
  /\ Ready(d1) /\ Ready(d2)
  /\ eq = (dicts[d1].terms = dicts[d2].terms)
  /\ eq => hashEq
  /\ UNCHANGED libVars

(* The node graph.  nodes[k] is <<final, edges>>, edges a sequence of       *)
(* <<label, target>>; node 1 is the root and edges lead to higher numbers.  *)
(* Right(nodes)[k] is the set of strings that lead from k to a final node.  *)
Edges(node) == {node[2][m] : m \in 1..Len(node[2])}
Targets(node) == {e[2] : e \in Edges(node)}

Right(nodes) ==
  LET num == Len(nodes)
  IN FoldLeft(
       LAMBDA acc, i :
         LET k == num + 1 - i
         IN [acc EXCEPT ![k] = (IF nodes[k][1] THEN {<<>>} ELSE {}) \cup
                               UNION {{<<e[1]>> \o s : s \in acc[e[2]]} : e \in Edges(nodes[k])}],
       [k \in 1..num |-> {}], Idx(num))

Acyclic(nodes) == \A k \in 1..Len(nodes) : \A t \in Targets(nodes[k]) : k < t /\ t <= Len(nodes)
Deterministic(nodes) == \A k \in 1..Len(nodes) : Cardinality({e[1] : e \in Edges(nodes[k])}) = Len(nodes[k][2])
Connected(nodes) == UNION {Targets(nodes[k]) : k \in 1..Len(nodes)} = 2..Len(nodes)

\* What a dictionary's graph has to be.
MinimalFor(nodes, terms) ==
  LET R == Right(nodes)
  IN /\ R[1] = TermSet(terms)                                          \* accepts the terms
     /\ \A k \in 2..Len(nodes) : R[k] # {}                             \* nothing useless
     /\ Cardinality({R[k] : k \in 1..Len(nodes)}) = Len(nodes)         \* no two equivalent nodes

(* The same without spelling out the right languages (DawgModel checks that *)
(* the two agree): every term is spelt by a path, the number of paths is    *)
(* that of the terms, and no two nodes have the same finality and edges.    *)
\* The node that t leads to, or 0.
Follow(nodes, t) ==
  FoldLeft(LAMBDA at, ch :
             IF at = 0 THEN 0
             ELSE LET next == {e \in Edges(nodes[at]) : e[1] = ch}
                  IN IF next = {} THEN 0 ELSE (CHOOSE e \in next : TRUE)[2],
           1, t)
Spells(nodes, t) == LET k == Follow(nodes, t) IN k # 0 /\ nodes[k][1]

PathCounts(nodes) ==
  LET num == Len(nodes)
      \* built from the last node to the first; entry num+1-k belongs to node k
      Cap(x) == Mn(x, 1000000000)
  IN FoldLeft(
       LAMBDA acc, i :
         LET k == num + 1 - i
         IN Append(acc, FoldLeft(LAMBDA sum, e : Cap(sum + acc[num + 1 - e[2]]),
                                 IF nodes[k][1] THEN 1 ELSE 0, nodes[k][2])),
       <<>>, Idx(num))

IsMinimalFor(nodes, terms) ==
  \* (\E instead of LET: TLC evaluates the counts once)
  \E counts \in {PathCounts(nodes)} :
     /\ \A k \in 1..Len(terms) : Spells(nodes, terms[k])
     /\ counts[Len(nodes)] = Len(terms)
     /\ \A k \in 1..(Len(nodes) - 1) : counts[k] > 0
     /\ Cardinality({<<nodes[k][1], Edges(nodes[k])>> : k \in 1..Len(nodes)}) = Len(nodes)

Graph(d, nodes) ==
  /\ Ready(d)
  /\ Guard(/\ Acyclic(nodes)
           /\ Deterministic(nodes)
           /\ Connected(nodes)
           /\ IsMinimalFor(nodes, dicts[d].terms))
  /\ UNCHANGED libVars

\* A graph that accepts the terms, minimal or not; dead: whether it may have
\* nodes that lead to no term.
AcceptsOnly(nodes, terms, dead) ==
  \E counts \in {PathCounts(nodes)} :
     /\ \A k \in 1..Len(terms) : Spells(nodes, terms[k])
     /\ counts[Len(nodes)] = Len(terms)
     /\ dead \/ \A k \in 1..(Len(nodes) - 1) : counts[k] > 0
AcceptsTerms(nodes, terms) == AcceptsOnly(nodes, terms, FALSE)

AnyGraph(d, nodes) ==
  /\ Ready(d)
  /\ Guard(/\ Acyclic(nodes)
           /\ Deterministic(nodes)
           /\ Connected(nodes)
           /\ AcceptsOnly(nodes, dicts[d].terms, dicts[d].loose))
  /\ UNCHANGED libVars

\* What lies below the node that a string leads to is a dictionary, too, if
\* there is such a node.
Below(d, d2, t, ok) ==
  /\ Ready(d)
  /\ \E B \in {SelectSeq(dicts[d].terms, LAMBDA w : Len(w) >= Len(t) /\ SubSeq(w, 1, Len(t)) = t)} :
       /\ t = <<>> \/ B # <<>> => ok
       /\ ok => t = <<>> \/ B # <<>> \/ dicts[d].loose
       /\ dicts' = IF ok THEN Put(dicts, d2, [Finished([k \in 1..Len(B) |-> SubSeq(B[k], Len(t) + 1, Len(B[k]))]) EXCEPT !.loose = dicts[d].loose])
                   ELSE dicts
  /\ UNCHANGED <<iters, files>>

\* A graph of nodes made one by one.
HandMade(d, nodes) ==
  /\ Guard(Acyclic(nodes) /\ Deterministic(nodes) /\ Connected(nodes))
  /\ \E T \in {SortTerms(Right(nodes)[1])} : dicts' = Put(dicts, d, [Finished(T) EXCEPT !.loose = TRUE])
  /\ UNCHANGED <<iters, files>>

DropDict(d) ==
  /\ d \in DOMAIN dicts
  /\ dicts' = Del(dicts, d)
  /\ UNCHANGED <<iters, files>>

-----------------------------------------------------------------------------
(* Iterations.  An iteration is bound to the set of items it must yield     *)
(* when it begins, in any order, each exactly once.                         *)

NewIter(todo) == [todo |-> todo, pos |-> 0, shown |-> << >>]

SearchBegin(it, alg, d, q, n) ==
  /\ Ready(d)
  /\ iters' = Put(iters, it, NewIter(Answer(alg, dicts[d].terms, q, n)))
  /\ UNCHANGED <<dicts, files>>

EnumBegin(it, d) ==
  /\ Ready(d)
  /\ iters' = Put(iters, it, NewIter({<<k, 0>> : k \in 1..Len(dicts[d].terms)}))
  /\ UNCHANGED <<dicts, files>>

AtEnd(it) == iters[it].pos >= Cardinality(iters[it].todo)

IterEnd(it, b) == it \in DOMAIN iters /\ b = AtEnd(it) /\ UNCHANGED libVars

IterRead(it, item) ==
  /\ it \in DOMAIN iters
  /\ ~ AtEnd(it)
  /\ LET I == iters[it]
     IN IF I.pos \in DOMAIN I.shown
        THEN item = I.shown[I.pos] /\ UNCHANGED libVars
        ELSE /\ item \in I.todo
             /\ \A p \in DOMAIN I.shown : I.shown[p] # item
             /\ iters' = [iters EXCEPT ![it].shown = Put(@, I.pos, item)]
             /\ UNCHANGED <<dicts, files>>

\* Advancing an iteration that has ended leaves it at its end.
IterNext(it) ==
  /\ it \in DOMAIN iters
  /\ iters' = IF AtEnd(it) THEN iters ELSE [iters EXCEPT ![it].pos = @ + 1]
  /\ UNCHANGED <<dicts, files>>

\* A copy goes on from where the original is, and neither affects the other.
IterCopy(it, to) ==
  /\ it \in DOMAIN iters
  /\ iters' = Put(iters, to, iters[it])
  /\ UNCHANGED <<dicts, files>>

IterDrop(it) ==
  /\ it \in DOMAIN iters
  /\ iters' = Del(iters, it)
  /\ UNCHANGED <<dicts, files>>

(* A whole iteration at once: the sequence of items it yields.              *)
IsOrderOf(res, todo) ==
  \E S \in {todo} :
    /\ Len(res) = Cardinality(S)
    /\ {res[k] : k \in 1..Len(res)} = S

Search(alg, d, q, n, res) ==
  /\ Ready(d)
  /\ Guard(IsOrderOf(res, Answer(alg, dicts[d].terms, q, n)))
  /\ UNCHANGED libVars

\* The same for results without distances: only the terms' indices.
SearchTerms(alg, d, q, n, res) ==
  /\ Ready(d)
  /\ Guard(IsOrderOf(res, {p[1] : p \in Answer(alg, dicts[d].terms, q, n)}))
  /\ UNCHANGED libVars

Enumerate(d, res) ==
  /\ Ready(d)
  /\ Guard(IsOrderOf(res, 1..Len(dicts[d].terms)))
  /\ UNCHANGED libVars

(* A search looks at no more than it must: beyond a string that no word     *)
(* within the distance begins with, at most at the next node.  seen are the *)
(* strings that lead to the nodes looked at.                                *)
Explore(alg, d, q, n, res, seen) ==
  /\ Ready(d)
  /\ Guard(IsOrderOf(res, Answer(alg, dicts[d].terms, q, n)))
  /\ Guard(\A k \in 1..Len(seen) :
             seen[k] = <<>> \/ Viable(alg, SubSeq(seen[k], 1, Len(seen[k]) - 1), q, n))
  /\ UNCHANGED libVars

(* Results are found on demand: when an item is shown, nothing that lies    *)
(* below a match still to be shown has been looked at.  seen are <<string,  *)
(* number of items shown before that was looked at>>.                       *)
OnDemand(terms, items, seen) ==
  \E shown \in {[t \in {terms[items[k]] : k \in 1..Len(items)} |-> CHOOSE k \in 1..Len(items) : terms[items[k]] = t]} :
    \A m \in 1..Len(seen) : \A len \in 0..(Len(seen[m][1]) - 1) :
      \E p \in {SubSeq(seen[m][1], 1, len)} :
        IF p \in DOMAIN shown THEN shown[p] <= seen[m][2] + 1 ELSE TRUE

SearchOnDemand(alg, d, q, n, items, seen) ==
  /\ Ready(d)
  /\ Guard(/\ IsOrderOf(items, {p[1] : p \in Answer(alg, dicts[d].terms, q, n)})
           /\ OnDemand(dicts[d].terms, items, seen))
  /\ UNCHANGED libVars

EnumOnDemand(d, items, seen) ==
  /\ Ready(d)
  /\ Guard(IsOrderOf(items, 1..Len(dicts[d].terms)) /\ OnDemand(dicts[d].terms, items, seen))
  /\ UNCHANGED libVars

\* Looking a string up, only at what leads to it.
Lookup(d, t, b, seen) ==
  /\ Ready(d)
  /\ b = (t \in TermSet(dicts[d].terms))
  /\ Guard(\A k \in 1..Len(seen) : Len(seen[k]) <= Len(t) /\ SubSeq(t, 1, Len(seen[k])) = seen[k])
  /\ UNCHANGED libVars

-----------------------------------------------------------------------------
(* Distance functions: stateless as far as a caller can tell. *)

Distance(alg, v, w, r) == Guard(r = Dist(alg, v, w)) /\ UNCHANGED libVars

(* The axioms, stated on the values the function gives: r holds             *)
(* d(u,v), d(v,u), d(v,w), d(u,w), d(u,u), d(xu,xv), d(ux,vx), d(xuw,xvw).  *)
Triangle(r) == r[4] <= r[1] + r[3]

Axioms(alg, u, v, w, x, r) ==
  /\ (r[1] = 0) = (u = v)                            \* identity
  /\ r[5] = 0
  /\ r[1] = r[2]                                     \* symmetry
  /\ \A k \in 1..Len(r) : r[k] >= 0
  /\ r[6] = r[1] /\ r[7] = r[1] /\ r[8] = r[1]       \* same string before or after both
  /\ IF Triangle(r) THEN TRUE
     ELSE \* Known finding: without editing a character twice, the transposition
        \* distance is not a metric.  Only its own exact values are excused.
        alg = TRA /\ r[1] = Dist(alg, u, v) /\ r[3] = Dist(alg, v, w) /\ r[4] = Dist(alg, u, w)

-----------------------------------------------------------------------------
(* Memory: repeating a whole history of calls, including the destruction of *)
(* everything it made, must not leave more memory in use.                   *)
Heap(grow) == grow = 0 /\ UNCHANGED libVars

-----------------------------------------------------------------------------
(* Files *)

File(f) == IF f \in DOMAIN files THEN files[f] ELSE Absent

\* all: whether every byte reached the file or stream.
Serialize(d, f, all, ok) ==
  /\ Ready(d)
  /\ ok = all
  /\ files' = Put(files, f, IF all THEN [state |-> "complete", terms |-> dicts[d].terms]
                                   ELSE [state |-> "torn", terms |-> <<>>])
  /\ UNCHANGED <<dicts, iters>>

(* The published message format (proto/liblevenshtein.proto), as any program  *)
(* reads and writes it: the nodes of the graph, which of them are final, the *)
(* labelled edges, the root and the number of terms.  Node numbers stand for *)
(* ids; node 1 is the root.                                                  *)

\* What a dictionary is written as.
Message(d, nodes, size) ==
  /\ Ready(d)
  /\ Guard(/\ Acyclic(nodes)
           /\ Deterministic(nodes)
           /\ Connected(nodes)
           /\ AcceptsTerms(nodes, dicts[d].terms)
           /\ size = Len(dicts[d].terms))
  /\ UNCHANGED libVars

\* A message written by another program, whatever ids it uses, in whatever
\* order, and minimal or not.
PutMessage(f, nodes) ==
  /\ Guard(Acyclic(nodes) /\ Deterministic(nodes) /\ Connected(nodes))
  /\ \E T \in {SortTerms(Right(nodes)[1])} :
        files' = Put(files, f, [state |-> "complete", terms |-> T])
  /\ UNCHANGED <<dicts, iters>>

(* The writer dies, or the file is cut: only a prefix remains.  lossless is *)
(* whether the whole message still is there.                                *)
Tear(f, lossless) ==
  /\ files' = IF lossless THEN files ELSE Put(files, f, [state |-> "torn", terms |-> <<>>])
  /\ UNCHANGED <<dicts, iters>>

RemoveFile(f) ==
  /\ files' = Put(files, f, Absent)
  /\ UNCHANGED <<dicts, iters>>

\* Another file with the same content.
CopyFile(f, g) ==
  /\ files' = Put(files, g, File(f))
  /\ UNCHANGED <<dicts, iters>>

Deserialize(f, d, ok) ==
  /\ ok = (File(f).state = "complete")
  /\ dicts' = IF ok THEN Put(dicts, d, Finished(File(f).terms)) ELSE dicts
  /\ UNCHANGED <<iters, files>>

-----------------------------------------------------------------------------
(* Properties of the abstract system. *)

TypeOK ==
  /\ \A d \in DOMAIN dicts : SortedSeq(dicts[d].terms)
  /\ \A d \in DOMAIN dicts : Cardinality(TermSet(dicts[d].terms)) = Len(dicts[d].terms)
  /\ \A f \in DOMAIN files : files[f].state \in {"absent", "torn", "complete"}

\* No iteration ever shows an item twice, or one it does not have to yield.
IterOK ==
  \A it \in DOMAIN iters :
    LET I == iters[it]
    IN /\ \A p \in DOMAIN I.shown : I.shown[p] \in I.todo
       /\ \A p, r \in DOMAIN I.shown : I.shown[p] = I.shown[r] => p = r
       /\ I.pos <= Cardinality(I.todo)

LibInv == TypeOK /\ IterOK

\* A finished dictionary never changes while it exists.
Frozen ==
  [][\A d \in DOMAIN dicts :
       (~ dicts[d].open /\ d \in DOMAIN dicts') => dicts'[d] = dicts[d]]_libVars
=============================================================================
