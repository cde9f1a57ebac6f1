------------------------------ MODULE DemoTrace ------------------------------
(* Checks recorded histories of the demonstration program against Demo.      *)
EXTENDS Demo, Json

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES sid, l
tvars == <<texts, saved, sid, l>>

Init == DemoInit /\ sid \in 1..Len(Trace) /\ l = 1

Ev == Trace[sid].ev

Step(e) ==
  CASE e.op = "Text" -> PutText(e.f, e.lines)
    [] e.op = "NoText" -> DropText(e.f)
    [] e.op = "NoSave" -> DropSave(e.f)
    [] e.op = "Tear" -> TearSave(e.f, e.lossless)
    [] e.op = "Run" -> Run(e.args, e.queries, e.code, e.config, e.answers)
    [] e.op = "Endless" -> Endless(e.args, e.queries, e.cut, e.answers)
    [] OTHER -> FALSE

Next ==
  \/ /\ l <= Len(Ev)
     /\ Step(Ev[l])
     /\ l' = l + 1
     /\ sid' = sid
  \/ /\ l > Len(Ev)
     /\ UNCHANGED tvars

Spec == Init /\ [][Next]_tvars
=============================================================================
