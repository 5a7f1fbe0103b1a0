------------------------------ MODULE AuthTrace ------------------------------
EXTENDS Auth, Cookie, TraceBase
VARIABLES conf, logged, cr, ids, ph, open, ran, ob, busy
vars == <<tid, l, conf, logged, cr, ids, ph, open, ran, ob, busy>>
TInit == TBInit /\ conf = [realm |-> <<>>, svc |-> <<>>] /\ logged = {} /\ cr = NoCreds /\ ids = {} /\ ph = "idle" /\ open = 0 /\ ran = [on |-> FALSE, u |-> <<>>, out |-> FALSE] /\ ob = <<>> /\ busy = FALSE
Carried(cks) == LET s == AllCookies(cks) IN {s[i].v : i \in {j \in 1..Len(s) : s[j].k = B("sessionid")}}
Told == LET h == HeaderVs(ob, B("Set-Cookie")) IN
        {SubSeq(SetCookie(h[i]).kv, 11, Len(SetCookie(h[i]).kv)) : i \in {j \in 1..Len(h) : StartsWith(SetCookie(h[j]).kv, B("sessionid="))}}
Status == IF Len(ob) > 12 THEN SubSeq(ob, 10, 12) ELSE <<>>
Challenge == /\ Status = B("401") /\ FindFrom(ob, 1, B("SECRET")) = 0
             /\ HeaderVs(ob, B("WWW-Authenticate")) = <<B("Basic realm=\"") \o conf.realm \o B("\"")>>
Keep == UNCHANGED <<conf, logged, cr, ids, ph, open, ran, ob, busy>>
To(x) == x # "bad" /\ ph' = x
TNext ==
  \/ (Is("open") \/ Is("in") \/ Is("close") \/ Is("st") \/ Is("cut") \/ Is("ret")) /\ Keep /\ Advance
  \/ Is("conf") /\ conf' = [realm |-> Ev.realm, svc |-> Ev.svc] /\ Advance /\ UNCHANGED <<logged, cr, ids, ph, open, ran, ob, busy>>
  \/ /\ Is("req") /\ ~busy /\ busy' = TRUE /\ ids' = Carried(Ev.ck) /\ Len(Ev.au) <= 1
     /\ cr' = (IF Ev.au = <<>> THEN NoCreds ELSE Creds(Ev.au[1]))
     /\ ph' = "idle" /\ ran' = [on |-> FALSE, u |-> <<>>, out |-> FALSE] /\ ob' = <<>> /\ Advance /\ UNCHANGED <<conf, logged, open>>
  \/ /\ Is("pstart") /\ busy /\ cr.k # "no" /\ Ev.svc = conf.svc /\ Ev.user = cr.u /\ To(Step(ph, "start", Ev.r = 0))
     /\ open' = (IF Ev.r = 0 THEN open + 1 ELSE open) /\ Advance /\ UNCHANGED <<conf, logged, cr, ids, ran, ob, busy>>
  \/ /\ Is("pauth") /\ open = 1 /\ Len(Ev.pw) > 0 /\ (\A i \in 1..Len(Ev.pw) : Ev.pw[i] = cr.p) /\ To(Step(ph, "auth", Ev.r = 0))
     /\ Advance /\ UNCHANGED <<conf, logged, cr, ids, open, ran, ob, busy>>
  \/ /\ Is("pacct") /\ open = 1 /\ To(Step(ph, "acct", Ev.r = 0)) /\ Advance /\ UNCHANGED <<conf, logged, cr, ids, open, ran, ob, busy>>
  \/ /\ Is("pend") /\ (Ev.null \/ open = 1) /\ open' = (IF Ev.null THEN open ELSE 0) /\ Advance /\ UNCHANGED <<conf, logged, cr, ids, ph, ran, ob, busy>>
  \/ /\ Is("inner") /\ busy /\ ~ran.on /\ Ev.has /\ MayPass(ph, cr, logged, ids, Ev.user)
     /\ ran' = [on |-> TRUE, u |-> Ev.user, out |-> FALSE] /\ Advance /\ UNCHANGED <<conf, logged, cr, ids, ph, open, ob, busy>>
  \/ /\ Is("logout") /\ ran.on /\ logged' = {x \in logged : x[1] \notin ids} /\ ran' = [ran EXCEPT !.out = TRUE]
     /\ Advance /\ UNCHANGED <<conf, cr, ids, ph, open, ob, busy>>
  \/ Is("out") /\ ob' = ob \o Ev.d /\ Advance /\ UNCHANGED <<conf, logged, cr, ids, ph, open, ran, busy>>
  \/ /\ Is("done") /\ busy /\ busy' = FALSE /\ open = 0
     /\ IF ran.on
        THEN /\ Status = B("200")
             /\ logged' = (IF ran.out THEN logged ELSE logged \cup {<<i, ran.u>> : i \in Told})
             /\ ran.out \/ Told # {}
        ELSE MayRefuse(ph, cr, logged, ids) /\ (IF Challenge THEN TRUE ELSE FALSE) /\ UNCHANGED logged
     /\ Advance /\ UNCHANGED <<conf, cr, ids, ph, open, ran, ob>>
  \/ Is("end") /\ ~busy /\ Ev.live = 0 /\ Keep /\ Advance
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
