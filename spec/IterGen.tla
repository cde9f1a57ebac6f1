------------------------------- MODULE IterGen -------------------------------
(***************************************************************************)
(* Interleaved iterations over one dictionary: every transition of a small *)
(* instance of Library with two iterators, each a search or an enumeration,*)
(* advanced, read, tested, abandoned and begun again in every order.  Each *)
(* transition is printed as a script for the real library (hist is not     *)
(* part of the view), and LibInv is checked on the way.                    *)
(***************************************************************************)
EXTENDS Library

CONSTANTS Alg, Terms0, Query, Limit, Kinds,   \* Kinds: what an iterator may be
          Copies                               \* whether they are copied

VARIABLES touched,  \* iterator -> what was done to it since it was advanced
          hist
gvars == <<dicts, iters, files, touched, hist>>

AlgNum == CASE Alg = STD -> "0" [] Alg = TRA -> "1" [] Alg = MAS -> "2"
Letter(x) == CASE x = 1 -> "61" [] x = 2 -> "62" [] x = 3 -> "63"
Word(w) == IF w = <<>> THEN "-" ELSE FoldLeft(LAMBDA acc, x : acc \o Letter(x), "", w)
Ts == SortTerms(Terms0)
Start == "build 1 v" \o FoldLeft(LAMBDA acc, t : acc \o " " \o Word(t), "", Ts) \o
         ";tr 1 " \o AlgNum \o " c 1;tr 2 " \o AlgNum \o " s 1" \o
         ";rg 1 1 " \o Word(Query) \o " " \o ToString(Limit) \o
         ";rg 2 2 " \o Word(Query) \o " " \o ToString(Limit)

Its == {1, 2}
N(k) == ToString(k)
Do(A, text) == A /\ hist' = Append(hist, text)
Touch(i, x) == touched' = [touched EXCEPT ![i] = x]

\* The item read is whichever comes first: which one the library shows first
\* is its choice, and the script does not say.
First(I) == CHOOSE x \in I.todo : /\ \A p \in DOMAIN I.shown : I.shown[p] # x
                                  /\ \A y \in I.todo : (\A p \in DOMAIN I.shown : I.shown[p] # y) => x[1] <= y[1]
Read(i) == /\ ~ AtEnd(i)
           /\ LET I == iters[i]
              IN IterRead(i, IF I.pos \in DOMAIN I.shown THEN I.shown[I.pos] ELSE First(I))

GInit == /\ dicts = (1 :> Finished(Ts)) /\ iters = << >> /\ files = << >>
         /\ touched = [i \in Its |-> {}] /\ hist = <<>>

GNext == \E i \in Its :
  \/ "c" \in Kinds /\ Do(SearchBegin(i, Alg, 1, Query, Limit), "rb " \o N(i) \o " 1") /\ Touch(i, {"c"})
  \/ "s" \in Kinds /\ Do(SearchBegin(i, Alg, 1, Query, Limit), "rb " \o N(i) \o " 2") /\ Touch(i, {"s"})
  \/ "e" \in Kinds /\ Do(EnumBegin(i, 1), "eb " \o N(i) \o " 1") /\ Touch(i, {"e"})
  \/ /\ i \in DOMAIN iters
     /\ \/ /\ Copies
           /\ \E j \in Its \ {i} : /\ Do(IterCopy(i, j), "ic " \o N(j) \o " " \o N(i))
                                   /\ touched' = [k \in Its |-> (touched[i] \ {"ie", "ir"}) \cup {"copy"}]
        \/ Do(IterEnd(i, AtEnd(i)), "ie " \o N(i)) /\ Touch(i, touched[i] \cup {"ie"})
        \/ Do(Read(i), "ir " \o N(i)) /\ Touch(i, touched[i] \cup {"ir"})
        \/ Do(IterNext(i), "in " \o N(i)) /\ Touch(i, (touched[i] \ {"ie", "ir"}) \cup (IF AtEnd(i) THEN {"past"} ELSE {}))
        \/ Do(IterDrop(i), "id " \o N(i)) /\ Touch(i, {})

\* How far each iterator is, what it is, and what was done to it there.
View == <<[i \in Its |-> IF i \in DOMAIN iters THEN iters[i].pos ELSE -1], touched>>

Emit == PrintT("SCRIPT " \o FoldLeft(LAMBDA acc, c : acc \o ";" \o c, Start, hist'))
T1 == {<<1>>}
T3 == {<<>>, <<1>>, <<1, 2>>}
T5 == {<<>>, <<1>>, <<1, 2>>, <<2>>, <<2, 2>>}
Q1 == <<1>>

GSpec == GInit /\ [][GNext]_gvars
=============================================================================
