------------------------------ MODULE AuthGen ------------------------------
(* AMSpec: clients, credentials, sessions and a service of arbitrary verdicts, all histories of a few requests;  *)
(* GSpec: random requests to replay on the code.                                                                *)
EXTENDS Auth, FiniteSetsExt, Json, IOUtils, CSV
CONSTANTS MaxReqs, MaxIds
VARIABLES logged, own, next, ran, ok, n, reqs
\* own: identifiers each client was told; ok: <<client, user>> pairs for which credentials were accepted
vars == <<logged, own, next, ran, ok, n, reqs>>
Clients == {1, 2}
Usrs == {<<1>>, <<2>>}
CredsOf == {NoCreds} \cup {[k |-> q, u |-> u, p |-> <<>>] : q \in {"yes", "may"}, u \in Usrs}
AInit == logged = {} /\ own = [c \in Clients |-> {}] /\ next = 1 /\ ran = [c |-> 0, u |-> <<>>] /\ ok = {} /\ n = 0 /\ reqs = <<>>
Verdicts(cr) == CASE cr.k = "no" -> {"idle"} [] cr.k = "yes" -> {"refused", "accepted"} [] OTHER -> {"idle", "refused", "accepted"}
\* the outcome is any which the rules allow
Req(c, cr, ids, ph, id) ==
  /\ ok' = IF ph = "accepted" THEN ok \cup {<<c, cr.u>>} ELSE ok
  /\ n' = n + 1
  /\ \/ \E u \in Usrs : /\ MayPass(ph, cr, logged, ids, u)
                        /\ ran' = [c |-> c, u |-> u]
                        /\ LET i == IF ids # {} /\ Users(logged, ids) # {} THEN (CHOOSE i \in ids : TRUE) ELSE id IN
                           logged' = logged \cup {<<i, u>>} /\ own' = [own EXCEPT ![c] = @ \cup {i}] /\ next' = IF i = id THEN next + 1 ELSE next
     \/ MayRefuse(ph, cr, logged, ids) /\ ran' = [c |-> 0, u |-> <<>>] /\ UNCHANGED <<logged, own, next>>
     \/ \E i \in ids : MustPass(ph, logged, ids) /\ logged' = {x \in logged : x[1] # i} /\ ran' = [c |-> 0, u |-> <<>>] /\ UNCHANGED <<own, next>>
Step1 == \E c \in Clients, cr \in CredsOf : \E ids \in {{}, {99}} \cup {{i} : i \in own[c]} : \E ph \in Verdicts(cr) : Req(c, cr, ids, ph, next) /\ UNCHANGED reqs
AMSpec == AInit /\ [][n < MaxReqs /\ next <= MaxIds /\ Step1]_vars
\* the protected handler only ran for a client on behalf of a user whose credentials that client presented
Authorised == ran.c # 0 => <<ran.c, ran.u>> \in ok
LoggedOk == \A x \in logged : \E c \in Clients : x[1] \in own[c] /\ <<c, x[2]>> \in ok
---- \* random requests
R(S) == RandomElement(S)
Req1 == [c |-> R(0..2), conn |-> R(0..2), close |-> R(1..6) = 1, logout |-> R(1..8) = 1, v10 |-> R(1..8) = 1, m |-> R(1..6), ck |-> R(1..6), k |-> R(0..9), au |-> R(1..30), u |-> R(0..7), p |-> R(0..3)]
GNext == n < MaxReqs /\ reqs' = Append(reqs, Req1) /\ n' = n + 1 /\ UNCHANGED <<logged, own, next, ran, ok>>
GSpec == AInit /\ [][GNext]_vars
Emit == (n = MaxReqs) => CSVWrite("%1$s", <<ToJson([reqs |-> reqs])>>, IOEnv.OUT)
=============================================================================
