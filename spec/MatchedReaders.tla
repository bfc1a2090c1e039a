--------------------------- MODULE MatchedReaders --------------------------
(***************************************************************************)
(* The matched readers of a stateful writer: reader proxies in the order   *)
(* they were added, [g |-> GUID, t |-> what tells it from others].         *)
(***************************************************************************)
EXTENDS Sequences, Naturals

VARIABLE readers

ReadersInit == readers = <<>>

AddReader(g, t) == readers' = Append(readers, [g |-> g, t |-> t])

LookUp(g) ==
    LET s == SelectSeq(readers, LAMBDA r : r.g = g)
    IN  [i \in DOMAIN s |-> s[i].t]
=============================================================================
