------------------------------ MODULE MemoModel ------------------------------
(***************************************************************************)
(* A distance function object shared by threads.  Each thread computes the *)
(* distances of its calls with the recursion of EditModel, looking every   *)
(* pair up in the memo under a shared lock and storing every result under  *)
(* an exclusive lock; all interleavings of these steps are explored.       *)
(*                                                                         *)
(* A thread's stack holds frames [a, b, todo, best]: the pair being        *)
(* computed, the sub-pairs still to compute and the least result so far.   *)
(***************************************************************************)
EXTENDS Edit, TLC

CONSTANTS Threads, Chars, MaxLen, Alg

VARIABLES calls,    \* thread -> the pair of its call
          stack, pc, memo, readers, writer, result
vars == <<calls, stack, pc, memo, readers, writer, result>>

Key(a, b) == {a, b}           \* symmetric

Pairs == {<<a, b>> : a \in Words(Chars, MaxLen), b \in Words(Chars, MaxLen)}

\* Strip equal first characters, but never a whole word.
RECURSIVE Strip(_)
Strip(p) == IF p[1] # <<>> /\ p[2] # <<>> /\ Len(p[1]) > 1 /\ Len(p[2]) > 1 /\ p[1][1] = p[2][1]
            THEN Strip(<<Tail(p[1]), Tail(p[2])>>) ELSE p

Direct(p) ==  \* decided without recursion: the distance, or -1
  IF p[1] = <<>> THEN Len(p[2])
  ELSE IF p[2] = <<>> THEN Len(p[1])
  ELSE LET s == Strip(p)
       IN IF s[1][1] = s[2][1] THEN Mx(Len(s[1]), Len(s[2])) - 1 ELSE -1

SubPairs(p) ==
  LET s == Strip(p)  a == s[1]  b == s[2]
  IN << <<Tail(a), b>>, <<a, Tail(b)>>, <<Tail(a), Tail(b)>> >> \o
     (IF Alg = TRA /\ Len(a) > 1 /\ Len(b) > 1 /\ a[1] = b[2] /\ a[2] = b[1] THEN << <<Drop(a, 2), Drop(b, 2)>> >> ELSE <<>>) \o
     (IF Alg = MAS /\ Len(b) > 1 THEN << <<Tail(a), Drop(b, 2)>> >> ELSE <<>>) \o
     (IF Alg = MAS /\ Len(a) > 1 THEN << <<Drop(a, 2), Tail(b)>> >> ELSE <<>>)

Frame(p) == [pair |-> p, todo |-> <<>>, best |-> 1000000, started |-> FALSE]

Init == /\ calls \in [Threads -> Pairs]
        /\ stack = [t \in Threads |-> <<Frame(calls[t])>>]
        /\ pc = [t \in Threads |-> "get"]
        /\ memo = << >> /\ readers = {} /\ writer = 0
        /\ result = [t \in Threads |-> -1]

Top(t) == stack[t][Len(stack[t])]
SetTop(t, f) == [stack EXCEPT ![t] = Append(SubSeq(@, 1, Len(@) - 1), f)]

\* The value of the topmost frame is known: give it to the frame below.
Return(t, val) ==
  LET s == stack[t]  m == Len(s)
  IN IF m = 1
     THEN /\ result' = [result EXCEPT ![t] = val]
          /\ pc' = [pc EXCEPT ![t] = "done"]
          /\ stack' = [stack EXCEPT ![t] = <<>>]
     ELSE /\ stack' = [stack EXCEPT ![t] = Append(SubSeq(s, 1, m - 2), [s[m - 1] EXCEPT !.best = Mn(@, val)])]
          /\ pc' = [pc EXCEPT ![t] = "compute"]
          /\ UNCHANGED result

LockShared(t) == /\ pc[t] = "get" /\ writer = 0
                 /\ readers' = readers \cup {t}
                 /\ pc' = [pc EXCEPT ![t] = "look"]
                 /\ UNCHANGED <<calls, stack, memo, writer, result>>
Look(t) == /\ pc[t] = "look"
           /\ readers' = readers \ {t}
           /\ LET k == Key(Top(t).pair[1], Top(t).pair[2])
              IN IF k \in DOMAIN memo
                 THEN Return(t, memo[k])
                 ELSE pc' = [pc EXCEPT ![t] = "compute"] /\ UNCHANGED <<stack, result>>
           /\ UNCHANGED <<calls, memo, writer>>
Compute(t) == /\ pc[t] = "compute"
              /\ LET f == Top(t)
                     d == Direct(f.pair)
                     g == IF f.started THEN f ELSE [f EXCEPT !.started = TRUE, !.todo = IF d >= 0 THEN <<>> ELSE SubPairs(f.pair)]
                 IN IF d >= 0
                    THEN stack' = SetTop(t, [g EXCEPT !.best = d - 1]) /\ pc' = [pc EXCEPT ![t] = "set"]
                    ELSE IF g.best = 0 \/ g.todo = <<>>
                    THEN stack' = SetTop(t, g) /\ pc' = [pc EXCEPT ![t] = "set"]
                    ELSE /\ stack' = [stack EXCEPT ![t] = Append(Append(SubSeq(@, 1, Len(@) - 1), [g EXCEPT !.todo = Tail(@)]), Frame(Head(g.todo)))]
                         /\ pc' = [pc EXCEPT ![t] = "get"]
              /\ UNCHANGED <<calls, memo, readers, writer, result>>
LockExclusive(t) == /\ pc[t] = "set" /\ writer = 0 /\ readers = {}
                    /\ writer' = t
                    /\ pc' = [pc EXCEPT ![t] = "store"]
                    /\ UNCHANGED <<calls, stack, memo, readers, result>>
Store(t) == /\ pc[t] = "store"
            /\ writer' = 0
            /\ LET f == Top(t)
               IN /\ memo' = (Key(f.pair[1], f.pair[2]) :> (f.best + 1)) @@ memo
                  /\ Return(t, f.best + 1)
            /\ UNCHANGED <<calls, readers>>

AllDone == \A t \in Threads : pc[t] = "done"
Next == \/ \E t \in Threads : LockShared(t) \/ Look(t) \/ Compute(t) \/ LockExclusive(t) \/ Store(t)
        \/ AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(LockShared(t) \/ Look(t) \/ Compute(t) \/ LockExclusive(t) \/ Store(t))

Exclusive == (writer # 0 => readers = {}) /\ (\A t \in Threads : pc[t] = "store" => writer = t)
\* Whatever is in the memo is right, at every moment.
MemoOK == \A k \in DOMAIN memo : \E a \in k, b \in k : k = {a, b} /\ memo[k] = Dist(Alg, a, b)
ResultOK == \A t \in Threads : pc[t] = "done" => result[t] = Dist(Alg, calls[t][1], calls[t][2])
\* (deadlock freedom: TLC's deadlock check)
Terminates == <>AllDone
=============================================================================
