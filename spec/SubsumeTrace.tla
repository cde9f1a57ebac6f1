---------------------------- MODULE SubsumeTrace ----------------------------
(***************************************************************************)
(* Judges what the implementation declares redundant by what positions     *)
(* mean (Accepts in LevAutomaton), not by its rules.  Events "rel" and     *)
(* "uns" are judged for every query of a length and every word up to a     *)
(* length; "at" and "unsat" for the query and words they carry.            *)
(* A step of a session first picks a query, then judges.                   *)
(***************************************************************************)
EXTENDS LevAutomaton, Json

Trace == ndJsonDeserialize("trace.ndjson")

Letters == {1, 2, 3}

VARIABLES sid, l, q
tvars == <<sid, l, q>>

Init == sid \in 1..Len(Trace) /\ l = 1 /\ q = <<>>

Ev == Trace[sid].ev

Canonical(w) == \A k \in 1..Len(w) : w[k] <= 1 + Cardinality({w[j] : j \in 1..(k - 1)})

OverAll(e) == e.op \in {"rel", "uns"}
Queries(e) == IF OverAll(e) THEN {w \in [1..e.len -> Letters] : Canonical(w)} ELSE {e.q}

\* Enough letters to differ from all of a short query, few enough to enumerate.
Follow(e) == IF OverAll(e) THEN Words(Letters, IF e.len <= 3 THEN e.len + 2 ELSE 5) ELSE {e.words[k] : k \in 1..Len(e.words)}

RECURSIVE IsSub(_, _)
IsSub(a, b) ==   \* a is a subsequence of b
  IF a = <<>> THEN TRUE
  ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1] = b[1] THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))

Language(e, p) == {v \in Follow(e) : Accepts(e.alg, q, e.n, p, v)}
StateLanguage(e, st) == UNION {Language(e, st[k]) : k \in 1..Len(st)}

Judge(e) ==
  CASE e.op = "rel" ->
         LET ps == {e.rel[k][1] : k \in 1..Len(e.rel)} \cup {e.rel[k][2] : k \in 1..Len(e.rel)}
             L == [p \in ps |-> Language(e, p)]
         IN \A k \in 1..Len(e.rel) : L[e.rel[k][2]] \subseteq L[e.rel[k][1]]
    [] e.op = "uns" -> IsSub(e.after, e.before) /\ StateLanguage(e, e.before) = StateLanguage(e, e.after)
    [] e.op = "at" -> e.yes => Language(e, e.pair[2]) \subseteq Language(e, e.pair[1])
    [] e.op = "unsat" -> IsSub(e.after, e.before) /\ StateLanguage(e, e.before) = StateLanguage(e, e.after)
    [] OTHER -> FALSE

\* Odd l: pick a query for event (l+1)/2; even l: judge event l/2.
At == (l + 1) \div 2
Next ==
  /\ IF At > Len(Ev) THEN UNCHANGED tvars
     ELSE IF l % 2 = 1 THEN
       /\ q' \in IF Ev[At].op \in {"rel", "uns", "at", "unsat"} THEN Queries(Ev[At]) ELSE {<<>>}
       /\ l' = l + 1 /\ sid' = sid
     ELSE Judge(Ev[l \div 2]) /\ l' = l + 1 /\ q' = <<>> /\ sid' = sid

Spec == Init /\ [][Next]_tvars
=============================================================================
