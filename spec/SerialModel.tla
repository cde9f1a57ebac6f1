----------------------------- MODULE SerialModel -----------------------------
(***************************************************************************)
(* Dictionaries as files.  A dictionary's minimal automaton (its nodes are *)
(* the residual languages of its terms) becomes a message: fields in the   *)
(* order in which protobuf writes them.  A writer moves the message to the *)
(* disk through a buffer and may fail, or die, at any byte; a reader takes *)
(* what is there.  Fields are cells: the packed lists of ids, every edge,  *)
(* and the two numbers; each cell takes Width bytes.  A message cut inside *)
(* a field does not parse; cut between fields it does, and what is missing *)
(* has its default.                                                        *)
(***************************************************************************)
EXTENDS Library

CONSTANTS Chars, MaxLen, MaxTerms, Width, Buffer

VARIABLES phase, terms,
          msg,     \* the message: sequence of fields
          buf,     \* bytes accepted by the stream but not yet on disk
          disk,    \* bytes on disk
          room,    \* bytes the disk takes before writing fails
          failed,  \* the stream's fail bit
          said,    \* what serialize_protobuf returned
          loaded   \* what deserialize_protobuf returned
vars == <<phase, terms, msg, buf, disk, room, failed, said, loaded, dicts, iters, files>>

None == [null |-> TRUE, terms |-> {}, size |-> 0]

-----------------------------------------------------------------------------
Residual(S, c) == {Tail(s) : s \in {s \in S : s # <<>> /\ s[1] = c}}
RECURSIVE Residuals(_, _)
Residuals(seen, todo) ==
  IF todo = {} THEN seen
  ELSE Residuals(seen \cup todo, UNION {{Residual(S, c) : c \in Chars} \ {{}} : S \in todo} \ (seen \cup todo))

Written(ts) ==
  LET root == TermSet(ts)
      nodes == Residuals({}, {root})
      final == {S \in nodes : <<>> \in S}
      edges == {e \in [source : nodes, label : Chars, target : nodes] : Residual(e.source, e.label) = e.target}
  IN << [f |-> "node_id", v |-> nodes] >> \o
     (IF final = {} THEN <<>> ELSE << [f |-> "final_node_id", v |-> final] >>) \o
     [k \in 1..Cardinality(edges) |-> [f |-> "edge", v |-> SetToSeq(edges)[k]]] \o
     << [f |-> "root_id", v |-> root] >> \o
     (IF ts = <<>> THEN <<>> ELSE << [f |-> "size", v |-> Len(ts)] >>)

Fields(m, name) == {m[k].v : k \in {k \in 1..Len(m) : m[k].f = name}}
List(m, name) == UNION Fields(m, name)

\* is_complete
Complete(m) ==
  LET ids == List(m, "node_id")
      root == Fields(m, "root_id")
      size == IF Fields(m, "size") = {} THEN 0 ELSE CHOOSE s \in Fields(m, "size") : TRUE
  IN /\ \A e \in Fields(m, "edge") : e.source \in ids /\ e.target \in ids
     /\ root # {} /\ root \subseteq ids
     /\ (List(m, "final_node_id") = {}) = (size = 0)

\* The terms spelt by the edges of a parsed message.
RECURSIVE Language(_, _, _)
Language(m, node, depth) ==
  (IF node \in List(m, "final_node_id") THEN {<<>>} ELSE {}) \cup
  (IF depth = 0 THEN {}
   ELSE UNION {{<<e.label>> \o s : s \in Language(m, e.target, depth - 1)} : e \in {x \in Fields(m, "edge") : x.source = node}})

Load(bytes) ==
  LET whole == bytes \div Width
      m == SubSeq(msg, 1, whole)
  IN IF bytes % Width # 0 THEN None                 \* does not parse
     ELSE IF ~ Complete(m) THEN None
     ELSE [null |-> FALSE,
           terms |-> Language(m, CHOOSE r \in Fields(m, "root_id") : TRUE, MaxLen + 1),
           size |-> IF Fields(m, "size") = {} THEN 0 ELSE CHOOSE s \in Fields(m, "size") : TRUE]

-----------------------------------------------------------------------------
Bytes == Len(msg) * Width

Init == /\ phase = "dictionary" /\ terms = <<>> /\ msg = <<>> /\ buf = 0 /\ disk = 0
        /\ room = 0 /\ failed = FALSE /\ said = FALSE /\ loaded = None
        /\ LibInit

Grow == /\ phase = "dictionary" /\ Len(terms) < MaxTerms
        /\ \E t \in Words(Chars, MaxLen) : (IF terms = <<>> THEN TRUE ELSE LexLess(terms[Len(terms)], t)) /\ terms' = Append(terms, t)
        /\ UNCHANGED <<phase, msg, buf, disk, room, failed, said, loaded>>

OpenFile == /\ phase = "dictionary"
            /\ msg' = Written(terms)
            /\ room' \in 0..(Len(Written(terms)) * Width)
            /\ failed' \in BOOLEAN          \* the file could not be opened
            /\ phase' = "write"
            /\ UNCHANGED <<terms, buf, disk, said, loaded>>

\* The stream takes a byte, unless it has failed; a full buffer is spilt first.
Spill(b, d) == IF d + b <= room THEN [buf |-> 0, disk |-> d + b, failed |-> FALSE]
               ELSE [buf |-> 0, disk |-> room, failed |-> TRUE]
Write == /\ phase = "write" /\ ~ failed /\ disk + buf < Bytes
         /\ IF buf < Buffer THEN buf' = buf + 1 /\ UNCHANGED <<disk, failed>>
            ELSE LET s == Spill(buf, disk)
                 IN disk' = s.disk /\ failed' = s.failed /\ buf' = IF s.failed THEN 0 ELSE 1
         /\ UNCHANGED <<phase, terms, msg, room, said, loaded>>

\* Closing flushes the rest, which may fail as well; then the result is given.
Close == /\ phase = "write" /\ (failed \/ disk + buf = Bytes)
         /\ IF failed THEN UNCHANGED <<buf, disk, failed>> /\ said' = FALSE
            ELSE LET s == Spill(buf, disk)
                 IN buf' = s.buf /\ disk' = s.disk /\ failed' = s.failed /\ said' = ~ s.failed
         /\ phase' = "closed"
         /\ UNCHANGED <<terms, msg, room, loaded>>

\* The process dies; what is in the buffer is lost.
Die == /\ phase = "write"
       /\ phase' = "died" /\ buf' = 0
       /\ UNCHANGED <<terms, msg, disk, room, failed, said, loaded>>

Read == /\ phase \in {"closed", "died"}
        /\ loaded' = Load(disk)
        /\ phase' = "read"
        /\ UNCHANGED <<terms, msg, buf, disk, room, failed, said>>

Next == (Grow \/ OpenFile \/ Write \/ Close \/ Die \/ Read) /\ UNCHANGED libVars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Original == [null |-> FALSE, terms |-> TermSet(terms), size |-> Len(terms)]

\* Success is reported if and only if every byte arrived.
Honest == phase = "closed" => said = (disk = Bytes)
\* What is read is nothing, or the dictionary that was written.
NeverMistaken == phase = "read" => loaded = None \/ loaded = Original
\* After a reported success it is there.
Durable == phase = "read" /\ said => loaded = Original
\* A complete file always loads.
RoundTrip == phase = "read" /\ disk = Bytes => loaded = Original
=============================================================================
