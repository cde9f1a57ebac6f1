------------------------------- MODULE DemoGen -------------------------------
(***************************************************************************)
(* Histories of the demonstration program and its files: every transition  *)
(* of a small instance of Demo, printed as a script for the real program.  *)
(* The properties below are checked on the way.                            *)
(***************************************************************************)
EXTENDS Demo

CONSTANTS Files, Contents

VARIABLE hist
gvars == <<texts, saved, hist>>

Letter(x) == CASE x = 1 -> "61" [] x = 2 -> "62"
Word(w) == IF w = <<>> THEN "-" ELSE FoldLeft(LAMBDA acc, x : acc \o Letter(x), "", w)
WordList(s) == FoldLeft(LAMBDA acc, t : acc \o " " \o Word(t), "", s)
N(k) == ToString(k)
Do(A, text) == A /\ hist' = Append(hist, text)

C3 == {<<>>, <<<<2>>, <<1, 2>>, <<2>>>>, <<<<1>>, <<>>>>}
C2 == {<<<<2>>, <<1, 2>>, <<2>>>>, <<<<1>>, <<>>>>}

Opts == {<<>>,
         <<[a |-> "dict", f |-> 1]>>,
         <<[a |-> "ser", f |-> 1]>>,
         <<[a |-> "dict", f |-> 1], [a |-> "ser", f |-> 1]>>,
         <<[a |-> "alg", alg |-> STD], [a |-> "dist", n |-> 0]>>,
         <<[a |-> "dist", n |-> 9], [a |-> "alg", alg |-> MAS], [a |-> "dist", n |-> 1]>>,
         <<[a |-> "help"]>>,
         <<[a |-> "bad"], [a |-> "help"]>>,
         <<[a |-> "open", opt |-> "dict"]>>,
         <<[a |-> "ser", f |-> 1], [a |-> "open", opt |-> "dist"]>>}
Shown(o) ==
  CASE o.a = "help" -> " help" [] o.a = "bad" -> " bad" [] o.a = "dict" -> " dict:" \o N(o.f)
    [] o.a = "ser" -> " ser:" \o N(o.f) [] o.a = "alg" -> " alg:" \o o.alg [] o.a = "dist" -> " dist:" \o N(o.n)
    [] o.a = "open" -> " open:" \o o.opt
ShownAll(args) == FoldLeft(LAMBDA acc, o : acc \o Shown(o), "", args)

Questions == <<<<1, 2>>, <<2, 1>>>>
\* The ways in which the input may end take turns.
Ends == <<"line", "eof">>

GInit == DemoInit /\ hist = <<>>

GNext ==
  \/ \E f \in Files :
       \/ \E c \in Contents : Do(PutText(f, c), "text " \o N(f) \o WordList(c))
       \/ Text(f).there /\ Do(DropText(f), "notext " \o N(f))
       \/ Save(f).state # "absent" /\ Do(DropSave(f), "nosave " \o N(f))
       \/ Save(f).state = "complete" /\ Do(TearSave(f, FALSE), "tear " \o N(f) \o " " \o N(Len(hist)))
  \/ \E args \in Opts :
       Do(Run(args, Questions, Parse(args).code, RightConfig(args), RightAnswers(args, Questions)),
          "run " \o Ends[1 + (Len(hist) % 2)] \o ShownAll(args) \o " :" \o WordList(Questions))

View == <<[f \in Files |-> Text(f)], [f \in Files |-> Save(f)]>>
Emit == PrintT("SCRIPT " \o FoldLeft(LAMBDA acc, c : IF acc = "" THEN c ELSE acc \o ";" \o c, "", hist'))
GSpec == GInit /\ [][GNext]_gvars

\* What is saved can be searched.
SavedOK == \A f \in DOMAIN saved : SortedSeq(saved[f].terms) /\ Cardinality(TermSet(saved[f].terms)) = Len(saved[f].terms)
\* A whole dictionary is only ever replaced by itself, torn or removed.
Stable == [][\A f \in Files : Save(f).state = "complete" =>
               saved'[f] \in {Save(f), NoSave, [state |-> "torn", terms |-> <<>>]}]_gvars
=============================================================================
