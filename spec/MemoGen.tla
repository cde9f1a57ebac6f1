------------------------------- MODULE MemoGen -------------------------------
(***************************************************************************)
(* The schedules of MemoModel, one thread step per acquisition of the lock *)
(* (what happens between two acquisitions is not visible to others).  For  *)
(* every transition a script is printed: the calls of the threads, and the *)
(* thread of each acquisition on a way to that transition.  The scripts    *)
(* are executed with real threads under a scheduler that follows them.     *)
(***************************************************************************)
EXTENDS MemoModel, SequencesExt

CONSTANT MaxTotal      \* bound on the letters of all calls together

VARIABLE hist
gvars == <<calls, stack, pc, memo, readers, writer, result, hist>>

\* From "compute" to the next acquisition, or the end.
Go(s) ==
  LET f == s[Len(s)]
      d == Direct(f.pair)
      g == IF f.started THEN f ELSE [f EXCEPT !.started = TRUE, !.todo = IF d >= 0 THEN <<>> ELSE SubPairs(f.pair)]
      put(x) == Append(SubSeq(s, 1, Len(s) - 1), x)
  IN IF d >= 0 THEN [s |-> put([g EXCEPT !.best = d - 1]), pc |-> "set"]
     ELSE IF g.best = 0 \/ g.todo = <<>> THEN [s |-> put(g), pc |-> "set"]
     ELSE [s |-> Append(put([g EXCEPT !.todo = Tail(@)]), Frame(Head(g.todo))), pc |-> "get"]

Back(s, val) ==
  LET m == Len(s)
  IN IF m = 1 THEN [s |-> <<>>, pc |-> "done"]
     ELSE Go(Append(SubSeq(s, 1, m - 2), [s[m - 1] EXCEPT !.best = Mn(@, val)]))

Put(t, r) == /\ stack' = [stack EXCEPT ![t] = r.s]
             /\ pc' = [pc EXCEPT ![t] = r.pc]
             /\ UNCHANGED <<calls, readers, writer, result>>

Get(t) == /\ pc[t] = "get"
          /\ LET k == Key(Top(t).pair[1], Top(t).pair[2])
             IN Put(t, IF k \in DOMAIN memo THEN Back(stack[t], memo[k]) ELSE Go(stack[t]))
          /\ UNCHANGED memo
Set(t) == /\ pc[t] = "set"
          /\ LET f == Top(t)
             IN /\ memo' = (Key(f.pair[1], f.pair[2]) :> (f.best + 1)) @@ memo
                /\ Put(t, Back(stack[t], f.best + 1))

GInit == /\ Init /\ hist = <<>>
         /\ \A t \in Threads : calls[t][1] # <<>> /\ calls[t][2] # <<>>
         /\ FoldFunction(LAMBDA c, n : n + Len(c[1]) + Len(c[2]), 0, calls) <= MaxTotal
GNext == \E t \in Threads : (Get(t) \/ Set(t)) /\ hist' = Append(hist, t)

View == <<calls, stack, pc, memo>>

Letter(x) == CASE x = 1 -> "61" [] x = 2 -> "62" [] x = 3 -> "63"
Word(w) == FoldLeft(LAMBDA acc, x : acc \o Letter(x), "", w)
AlgNum == CASE Alg = STD -> "0" [] Alg = TRA -> "1" [] Alg = MAS -> "2"
Script == FoldLeft(LAMBDA acc, t : acc \o "t " \o ToString(t) \o " dist " \o AlgNum \o " 0 " \o
                      Word(calls[t][1]) \o " " \o Word(calls[t][2]) \o ";", "", [t \in 1..Cardinality(Threads) |-> t])
          \o "plan sched" \o FoldLeft(LAMBDA acc, t : acc \o " " \o ToString(t), "", hist')
Running(p) == Cardinality({t \in Threads : p[t] # "done"})
Emit == Running(pc) >= 2 => PrintT("SCRIPT " \o Script)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
