------------------------------- MODULE Conc -------------------------------
(* Requests that run at once and share sessions.  A storage maps identifiers to sessions: a shared dictionary (in       *)
(* memory) or a value of which each request gets a copy (a database).  What a request does to the storage - looking a   *)
(* session up, removing it, leaving it at the end - happens at one moment between its call and its return.              *)
EXTENDS Integers, Sequences, FiniteSets
Ks == {"a", "b", "c", "u", "l"}
Empty == [k \in Ks |-> ""]
Keys(d) == {k \in Ks : d[k] # ""}
NoLin == [done |-> FALSE, has |-> FALSE, o |-> -1, d |-> Empty]
\* a request: the identifier its client sent, the session it uses (-1: none), what it is doing
NoReq == [k |-> -1, sk |-> -1, so |-> -1, ph |-> "idle", lin |-> NoLin, rq |-> [kind |-> "", tag |-> "", exp |-> FALSE], code |-> 200]
On(st, k) == k \in DOMAIN st /\ st[k].on
Entry(o, d) == [on |-> TRUE, o |-> o, d |-> d]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* the moment of a look up
LookLin(st, q) == [q EXCEPT !.lin = IF On(st, q.k) THEN [done |-> TRUE, has |-> TRUE, o |-> st[q.k].o, d |-> st[q.k].d] ELSE [NoLin EXCEPT !.done = TRUE]]
Gone(st, k) == IF k \in DOMAIN st THEN [st EXCEPT ![k].on = FALSE] ELSE st
FreeSt(st, q) == Gone(st, IF q.so >= 0 THEN q.sk ELSE q.k)
\* the moment a request leaves its session: kept, unless it is empty
EndSt(st, objs, q) == IF objs[q.so] = Empty THEN Gone(st, q.sk) ELSE With(st, q.sk, Entry(q.so, objs[q.so]))
Assign(d, kv) == [x \in Ks |-> IF \E i \in 1..Len(kv) : kv[i][1] = x THEN LET S == {i \in 1..Len(kv) : kv[i][1] = x} IN kv[CHOOSE i \in S : \A j \in S : j <= i][2] ELSE d[x]]
\* who is at the door of what needs a login: one who did, one who does, or one who may not
Login(d) == [d EXCEPT !["u"] = "u", !["l"] = "u"]
\* what the client of a request is told
Answer(r, own) == IF r.kind = "f" THEN r.tag \o "!" ELSE IF r.kind = "l" THEN own
  ELSE "p" \o r.tag \o ",q" \o r.tag \o ",h" \o r.tag \o ",b" \o (IF r.kind = "P" THEN r.tag ELSE "") \o ",c" \o r.tag
=============================================================================
