------------------------------- MODULE LibGen -------------------------------
(***************************************************************************)
(* Histories of dictionaries and files: every transition of a small        *)
(* instance of Library in which dictionaries are built at once or term by  *)
(* term, written, torn, copied, loaded, compared and destroyed.  Each is   *)
(* printed as a script for the real library (hist is not part of the       *)
(* view); LibInv and Frozen are checked on the way.                        *)
(***************************************************************************)
EXTENDS Library

CONSTANTS Vocabulary, MaxSeq, DictIds, FileIds

VARIABLE hist
gvars == <<dicts, iters, files, hist>>

Letter(x) == CASE x = 1 -> "61" [] x = 2 -> "62" [] x = 3 -> "63"
Word(w) == IF w = <<>> THEN "-" ELSE FoldLeft(LAMBDA acc, x : acc \o Letter(x), "", w)
N(k) == ToString(k)
Do(A, text) == A /\ hist' = Append(hist, text)
W3 == {<<>>, <<1>>, <<2>>}
W4 == {<<>>, <<1>>, <<1, 2>>, <<2>>}

Seqs == UNION {[1..k -> Vocabulary] : k \in 0..MaxSeq}
\* Overloads take turns.
How == <<"c", "p", "s", "o">>[1 + (Len(hist) % 4)]

GInit == LibInit /\ hist = <<>>

BuildStep(d) == \E s \in Seqs :
  Do(Build(d, s, SortedSeq(s)), "build " \o N(d) \o " v" \o FoldLeft(LAMBDA acc, t : acc \o " " \o Word(t), "", s))

AddStep(d) ==
  /\ d \in DOMAIN dicts
  /\ \E t \in Vocabulary :
       LET D == dicts[d]
           last == IF D.terms = <<>> THEN <<>> ELSE D.terms[Len(D.terms)]
       IN Do(Add(d, t, D.open /\ ~ LexLess(t, last)), "add " \o N(d) \o " " \o Word(t))

GNext ==
  \/ \E d \in DictIds :
       \/ BuildStep(d)
       \/ Do(Open(d), "open " \o N(d))
       \/ AddStep(d)
       \/ d \in DOMAIN dicts /\ Do(Finish(d), "finish " \o N(d))
       \/ Do(DropDict(d), "drop " \o N(d))
       \/ \E f \in FileIds :
            \/ d \in DOMAIN dicts /\ Do(Serialize(d, f, TRUE, TRUE), "ser " \o N(d) \o " " \o N(f) \o " " \o How \o " -1")
            \/ d \in DOMAIN dicts /\ Do(Serialize(d, f, FALSE, FALSE), "ser " \o N(d) \o " " \o N(f) \o " " \o How \o " " \o N(Len(hist) % 7))
            \/ Do(Deserialize(f, d, File(f).state = "complete"), "des " \o N(f) \o " " \o N(d) \o " " \o How)
       \/ \E e \in DictIds :
            /\ Ready(d) /\ Ready(e)
            /\ Do(Equal(d, e, dicts[d].terms = dicts[e].terms, TRUE), "eq " \o N(d) \o " " \o N(e))
  \/ \E f \in FileIds :
       \/ Do(RemoveFile(f), "rmf " \o N(f))
       \/ \E g \in FileIds \ {f} : files # << >> /\ Do(CopyFile(f, g), "cpf " \o N(f) \o " " \o N(g))

View == <<[d \in DictIds |-> IF d \in DOMAIN dicts THEN <<dicts[d].open, dicts[d].terms>> ELSE <<>>],
          [f \in FileIds |-> File(f)]>>

Emit == PrintT("SCRIPT " \o FoldLeft(LAMBDA acc, c : IF acc = "" THEN c ELSE acc \o ";" \o c, "", hist'))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
