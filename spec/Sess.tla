-------------------------------- MODULE Sess --------------------------------
(* Sessions of an application: the store, and the session of the request being served.              *)
(* ses = [on, id, d]: on: the handler asked for it; id: <<>> while a new one's identifier was not   *)
(* yet seen on the wire; d: a set of [k, v], one per key.                                           *)
EXTENDS Store
None == [on |-> FALSE, id |-> <<>>, d |-> {}]
Live(st, ids) == {ids[i] : i \in {j \in 1..Len(ids) : Found(st, ids[j])}}
\* the sessions a request that carries these identifiers may get: a live one of them, or a new one
MayGet(st, ids) == IF Live(st, ids) # {} THEN {[on |-> TRUE, id |-> i, d |-> st[i]] : i \in Live(st, ids)} ELSE {[on |-> TRUE, id |-> <<>>, d |-> {}]}
Opened(st, ses, ids) == IF ses.on THEN {ses} ELSE MayGet(st, ids)
SetK(d, k, v) == {e \in d : e.k # k} \cup {[k |-> k, v |-> v]}
DelK(d, k) == {e \in d : e.k # k}
\* at the end of the request
Close(st, ses) == IF ~ses.on \/ ses.id = <<>> THEN st ELSE IF ses.d = {} THEN Del(st, ses.id) ELSE Put(st, ses.id, ses.d)
\* explicit removal
Drop(st, ses) == IF ses.on /\ ses.id # <<>> THEN Del(st, ses.id) ELSE st
=============================================================================
