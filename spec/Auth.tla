-------------------------------- MODULE Auth --------------------------------
(* Basic credentials, and who may pass.                                                                   *)
EXTENDS Codec
\* What an Authorization header says: k is "no" (no basic credentials), "yes", or "may" where readers differ
\* (another spelling of the scheme, blanks inside); u and p are the user and the password.
NoCreds == [k |-> "no", u |-> <<>>, p |-> <<>>]
Creds(h) ==
  IF Len(h) < 6 \/ h[6] # 32 \/ ~IEq(SubSeq(h, 1, 5), B("basic")) THEN NoCreds
  ELSE LET t == SubSeq(h, 7, Len(h)) v == NoWs(t) IN
       IF ~B64Valid(v) THEN NoCreds
       ELSE LET d == B64Dec(v) c == IndexFrom(d, 1, 58) IN
            IF c = 0 \/ (\E i \in 1..Len(d) : d[i] = 0) THEN NoCreds
            ELSE [k |-> IF SubSeq(h, 1, 5) = B("Basic") /\ t = v THEN "yes" ELSE "may", u |-> SubSeq(d, 1, c - 1), p |-> SubSeq(d, c + 1, Len(d))]
\* Steps of the authentication service for one request.
Phases == {"idle", "started", "known", "accepted", "refused"}
Step(ph, step, ok) ==
  CASE step = "start" -> IF ph = "idle" THEN (IF ok THEN "started" ELSE "refused") ELSE "bad"
    [] step = "auth" -> IF ph = "started" THEN (IF ok THEN "known" ELSE "refused") ELSE "bad"
    [] step = "acct" -> IF ph = "known" THEN (IF ok THEN "accepted" ELSE "refused") ELSE "bad"
\* logged: sessions in which credentials were accepted, as <<identifier, user>>
Users(logged, ids) == {x[2] : x \in {y \in logged : y[1] \in ids}}
MayPass(ph, cr, logged, ids, user) == (ph = "accepted" /\ user = cr.u) \/ user \in Users(logged, ids)
MustPass(ph, logged, ids) == ph = "accepted" \/ Users(logged, ids) # {}
\* a refusal is right only if the service was asked where there was something to ask
MayRefuse(ph, cr, logged, ids) == ~MustPass(ph, logged, ids) /\ (cr.k = "yes" => ph = "refused") /\ (cr.k = "no" => ph = "idle")
=============================================================================
