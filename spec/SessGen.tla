------------------------------ MODULE SessGen ------------------------------
(* Clients of an application with sessions.  SMSpec: a small instance in which every value tells who  *)
(* wrote it, checked exhaustively; GSpec: random requests to replay on the code.                      *)
EXTENDS Sess, Json, IOUtils, CSV
CONSTANTS Clients, MaxReqs, MaxIds
VARIABLES st, own, next, saw, n, reqs
\* own[c]: identifiers announced to client c (they may be stale); saw: what the last request saw
vars == <<st, own, next, saw, n, reqs>>
Id(k) == <<k>>
SInit == st = Empty /\ own = [c \in Clients |-> {}] /\ next = 1 /\ saw = [c |-> 0, d |-> {}] /\ n = 0 /\ reqs = <<>>
Forged == {<<100>>}
Carry(c) == {<<>>} \cup {<<i>> : i \in own[c] \cup Forged} \cup {<<i, j>> : i, j \in own[c] \cup Forged}
\* a request: get the session, write, delete or drop, answer
Req(c, ids, op) == \E s \in MayGet(st, ids) :
  LET d == CASE op = "set" -> SetK(s.d, 1, c) [] op = "set2" -> SetK(s.d, 2, c) [] op = "clear" -> {} [] OTHER -> s.d
      tell == d # {} /\ op # "drop"
      id == IF s.id = <<>> THEN Id(next) ELSE s.id
      S == [on |-> TRUE, id |-> id, d |-> d] IN
  /\ saw' = [c |-> c, d |-> s.d]
  /\ IF op = "drop" THEN st' = Drop(st, s) ELSE st' = Close(st, S)
  /\ own' = IF tell THEN [own EXCEPT ![c] = @ \cup {id}] ELSE own
  /\ next' = IF s.id = <<>> /\ tell THEN next + 1 ELSE next
  /\ n' = n + 1 /\ UNCHANGED reqs
SNext == n < MaxReqs /\ next <= MaxIds /\ \E c \in Clients : \E ids \in Carry(c) : \E op \in {"get", "set", "set2", "clear", "drop"} : Req(c, ids, op)
SMSpec == SInit /\ [][SNext]_vars
\* nobody sees or keeps what others wrote; identifiers belong to one client; forged ones never live; no empty session is kept
Belongs == \A a, b \in Clients : a # b => own[a] \cap own[b] = {}
Isolated == /\ \A e \in saw.d : e.v = saw.c
            /\ \A c \in Clients : \A i \in own[c] : Found(st, i) => \A e \in st[i] : e.v = c
NotForged == \A f \in Forged : ~Found(st, f)
NoEmpty == \A i \in DOMAIN st : st[i] # {}
---- \* random requests
R(S) == RandomElement(S)
Op(x) == IF x <= 25 THEN [t |-> "sget", k |-> 0, v |-> 0] ELSE IF x <= 35 THEN [t |-> "s1", k |-> R(1..4), v |-> 0]
  ELSE IF x <= 65 THEN [t |-> "sset", k |-> R(1..4), v |-> R(1..9)] ELSE IF x <= 75 THEN [t |-> "sdel", k |-> R(1..4), v |-> 0]
  ELSE IF x <= 83 THEN [t |-> "sfree", k |-> 0, v |-> 0] ELSE IF x <= 95 THEN [t |-> "write", k |-> 0, v |-> 0] ELSE [t |-> "flush", k |-> 0, v |-> 0]
Req1(k) == [c |-> R(Clients), conn |-> R(0..2), close |-> R(1..6) = 1, v10 |-> R(1..8) = 1, form |-> R(1..16), a |-> R(0..9), b |-> R(0..9), ops |-> [i \in 1..k |-> Op(R(1..100))], ret |-> R({2, 2, 2, 2, 0, -500})]
GNext == n < MaxReqs /\ reqs' = Append(reqs, Req1(R(0..5))) /\ n' = n + 1 /\ UNCHANGED <<st, own, next, saw>>
GSpec == SInit /\ [][GNext]_vars
Emit == (n = MaxReqs) => CSVWrite("%1$s", <<ToJson([reqs |-> reqs])>>, IOEnv.OUT)
=============================================================================
