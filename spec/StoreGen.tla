------------------------------ MODULE StoreGen ------------------------------
(* All histories of a store up to a length, and random longer ones.          *)
EXTENDS Store, Json, IOUtils, CSV
CONSTANTS MaxOps, Ids, Vals, Sim
VARIABLES st, hist
Act(o) == /\ hist' = Append(hist, o)
          /\ st' = CASE o.op = "save" -> Put(st, o.id, o.v) [] o.op = "remove" -> Del(st, o.id) [] OTHER -> st
Ops == {[op |-> "save", id |-> i, v |-> v] : i \in Ids, v \in Vals} \cup {[op |-> "remove", id |-> i, v |-> 0] : i \in Ids} \cup {[op |-> "reopen", id |-> 0, v |-> 0]}
GInit == st = Empty /\ hist = <<>>
GNext == Len(hist) < MaxOps /\ \E o \in (IF Sim THEN {RandomElement(Ops)} ELSE Ops) : Act(o)
GSpec == GInit /\ [][GNext]_<<st, hist>>
\* the last operation on an identifier decides
Last(id) == LET k == {i \in 1..Len(hist) : hist[i].op # "reopen" /\ hist[i].id = id} IN
            IF k = {} THEN <<>> ELSE <<hist[CHOOSE i \in k : \A j \in k : j <= i]>>
LastWins == \A id \in Ids : LET o == Last(id) IN
   IF o # <<>> /\ o[1].op = "save" THEN Found(st, id) /\ st[id] = o[1].v ELSE ~Found(st, id)
Emit == (Len(hist) = MaxOps) => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.OUT)
=============================================================================
