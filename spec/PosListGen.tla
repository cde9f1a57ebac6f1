----------------------------- MODULE PosListGen -----------------------------
(***************************************************************************)
(* Every transition of PosList over short lists, each printed as a script  *)
(* of operations that leads to it from nothing (hist is not part of the    *)
(* view).  The scripts are then executed by the real container, and their  *)
(* traces checked with PosListTrace.                                       *)
(***************************************************************************)
EXTENDS PosList

CONSTANTS MaxList, Places

VARIABLE hist
gvars == <<lists, its, hist>>

P == {<<i, e, 0>> : i \in Places, e \in Places} \cup {<<0, 1, 1>>}
Txt(p) == ToString(p[1]) \o "." \o ToString(p[2]) \o "." \o ToString(p[3])
N(k) == ToString(k)

Room == 1 \in DOMAIN lists /\ Len(lists[1]) < MaxList
L == lists[1]

SortedBy(alg) == SortSeq(L, LAMBDA a, b : ~ Less(alg, b, a))
AlgNum(alg) == CASE alg = STD -> "0" [] alg = TRA -> "1" [] alg = MAS -> "2"

Do(A, text) == A /\ hist' = Append(hist, text)

Init == ListInit /\ hist = <<>>

Next ==
  \/ lists = << >> /\ Do(NewList(1, <<>>), "new 1 v")
  \/ lists = << >> /\ \E p \in P : Do(NewList(1, <<p>>), "new 1 i " \o Txt(p))
  \/ Room /\ \E p \in P :
       \/ Do(Add(1, p), "add 1 " \o Txt(p))
       \/ Do(PutFront(1, p), "front 1 " \o Txt(p))
       \/ \E k \in 0..Len(L) :
            \/ Do(After(1, k, p), "after 1 " \o N(k) \o " " \o Txt(p))
            \/ Do(AfterFree(1, k, p), "afterf 1 " \o N(k) \o " " \o Txt(p))
       \/ \E i \in DOMAIN its : Do(ItInsert(i, p), "itinsert " \o N(i) \o " " \o Txt(p))
  \/ 1 \in DOMAIN lists /\
       \/ \E k \in 1..Len(L) : Do(RemoveKth(1, k), "remove 1 " \o N(k))
       \/ \E alg \in Algorithms : Do(Sort(1, alg, SortedBy(alg)), "sort 1 " \o AlgNum(alg))
       \/ Do(ItNew(0, 1, -1), "itnew 0 1 -1")
       \/ Do(ItNew(1, 1, 0), "itnew 1 1 0")
       \/ \E i \in DOMAIN its :
            \/ Do(ItNext(i), "itnext " \o N(i))
            \/ Do(ItRemove(i), "itremove " \o N(i))

View == <<lists, its>>

Script(h) == FoldLeft(LAMBDA acc, c : IF acc = "" THEN c ELSE acc \o ";" \o c, "", h)
Emit == PrintT("SCRIPT " \o Script(hist'))
Spec == Init /\ [][Next]_gvars
=============================================================================
