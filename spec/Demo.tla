-------------------------------- MODULE Demo --------------------------------
(***************************************************************************)
(* The demonstration program (example/): a system that lives in files.     *)
(* One action per run of the program, from its command line to its exit.   *)
(*                                                                         *)
(*   texts  text files, one term per line: [there, lines]                  *)
(*   saved  serialized dictionaries: [state, terms], where state is        *)
(*          "absent", "complete" or "torn"                                 *)
(*                                                                         *)
(* A run takes its dictionary from the serialized file if that is whole,   *)
(* else from the text file; answers one query per line of its input until  *)
(* an empty line or the end; and saves the dictionary for the next run.    *)
(***************************************************************************)
EXTENDS Edit, TLC

VARIABLES texts, saved
demoVars == <<texts, saved>>

NoText == [there |-> FALSE, lines |-> <<>>]
NoSave == [state |-> "absent", terms |-> <<>>]

Text(f) == IF f \in DOMAIN texts THEN texts[f] ELSE NoText
Save(f) == IF f \in DOMAIN saved THEN saved[f] ELSE NoSave
With(g, k, v) == (k :> v) @@ g

DemoInit == texts = << >> /\ saved = << >>

-----------------------------------------------------------------------------
(* The surroundings *)

PutText(f, lines) ==
  /\ texts' = With(texts, f, [there |-> TRUE, lines |-> lines])
  /\ UNCHANGED saved
DropText(f) == texts' = With(texts, f, NoText) /\ UNCHANGED saved
DropSave(f) == saved' = With(saved, f, NoSave) /\ UNCHANGED texts

\* The program or the machine died while the file was written: a prefix is left.
TearSave(f, lossless) ==
  /\ saved' = IF lossless THEN saved ELSE With(saved, f, [state |-> "torn", terms |-> <<>>])
  /\ UNCHANGED texts

-----------------------------------------------------------------------------
(* The command line.  Options are read from left to right; the first that   *)
(* is not acceptable decides.                                               *)

Defaults == [dict |-> 0, ser |-> 0, alg |-> TRA, n |-> 2, stop |-> FALSE, code |-> 0]

Stop(cfg, code) == [cfg EXCEPT !.stop = TRUE, !.code = code]

Option(cfg, o) ==
  IF cfg.stop THEN cfg
  ELSE CASE o.a = "help" -> Stop(cfg, 0)
         [] o.a = "dict" -> IF Text(o.f).there THEN [cfg EXCEPT !.dict = o.f] ELSE Stop(cfg, 3)
         [] o.a = "ser" -> [cfg EXCEPT !.ser = o.f]
         [] o.a = "alg" -> [cfg EXCEPT !.alg = o.alg]
         [] o.a = "dist" -> [cfg EXCEPT !.n = o.n]
         [] o.a = "open" -> Stop(cfg, 2)          \* an option that lacks its value
         [] o.a = "bad" -> Stop(cfg, 4)

Parse(args) ==
  LET cfg == FoldLeft(LAMBDA acc, o : Option(acc, o), Defaults, args)
  IN IF ~ cfg.stop /\ ~ Text(cfg.dict).there /\ Save(cfg.ser).state = "absent"
     THEN Stop(cfg, 3) ELSE cfg

-----------------------------------------------------------------------------
(* A run *)

TermsFor(cfg) ==
  IF Save(cfg.ser).state = "complete" THEN Save(cfg.ser).terms
  ELSE SortTerms(TermSet(Text(cfg.dict).lines))

\* The queries before the first empty one.
Asked(queries) ==
  SelectSeq([k \in 1..Len(queries) |->
               [q |-> queries[k], live |-> \A m \in 1..k : queries[m] # <<>>]],
            LAMBDA x : x.live)

Lists(answer, alg, terms, q, n) ==
  \E S \in {{<<terms[p[1]], p[2]>> : p \in Answer(alg, terms, q, n)}} :
    /\ Len(answer) = Cardinality(S)
    /\ {<<answer[k][1], answer[k][2]>> : k \in 1..Len(answer)} = S

(* code: the exit code; config: what the program says it uses (f, g, alg, n),*)
(* <<>> if it says nothing; answers: one sequence of <<term, distance>> per  *)
(* query.                                                                    *)
Run(args, queries, code, config, answers) ==
  LET cfg == Parse(args)
      ask == Asked(queries)
  IN /\ code = cfg.code
     /\ IF cfg.stop
        THEN config = <<>> /\ answers = <<>> /\ UNCHANGED demoVars
        ELSE \E terms \in {TermsFor(cfg)} :
               /\ config = <<cfg.dict, cfg.ser, cfg.alg, cfg.n>>
               /\ Len(answers) = Len(ask)
               /\ Guard(\A k \in 1..Len(ask) : Lists(answers[k], cfg.alg, terms, ask[k].q, cfg.n))
               /\ saved' = With(saved, cfg.ser, [state |-> "complete", terms |-> terms])
               /\ UNCHANGED texts

\* The known finding (C25): if the input ends without a newline, the program
\* goes on to answer the last query for ever.  It is the only such run.
Endless(args, queries, cut, answers) ==
  LET cfg == Parse(args)
      ask == Asked(queries)
  IN /\ cut /\ ~ cfg.stop
     /\ ask # <<>> /\ Len(ask) = Len(queries)
     /\ \E terms \in {TermsFor(cfg)} :
          /\ Len(answers) > Len(ask)
          /\ Guard(\A k \in 1..Len(answers) :
                     Lists(answers[k], cfg.alg, terms, ask[IF k < Len(ask) THEN k ELSE Len(ask)].q, cfg.n))
     /\ UNCHANGED demoVars

(* What a correct program answers. *)
RightAnswers(args, queries) ==
  LET cfg == Parse(args)
      terms == TermsFor(cfg)
      ask == Asked(queries)
      Of(q) == Answer(cfg.alg, terms, q, cfg.n)
  IN IF cfg.stop THEN <<>>
     ELSE [k \in 1..Len(ask) |->
             SetToSeq({<<terms[p[1]], p[2]>> : p \in Of(ask[k].q)})]
RightConfig(args) ==
  LET cfg == Parse(args) IN IF cfg.stop THEN <<>> ELSE <<cfg.dict, cfg.ser, cfg.alg, cfg.n>>
=============================================================================
