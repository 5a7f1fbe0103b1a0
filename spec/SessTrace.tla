------------------------------ MODULE SessTrace ------------------------------
EXTENDS Sess, Cookie, TraceBase
VARIABLES st, ses, ids, seen, tell, ob, busy
\* ids: carried by the request; seen: all identifiers that ever were on the wire; tell: whether the session held
\* data, at each moment at which the head of the response may have been made
vars == <<tid, l, st, ses, ids, seen, tell, ob, busy>>
TInit == TBInit /\ st = Empty /\ ses = None /\ ids = <<>> /\ seen = {} /\ tell = {} /\ ob = <<>> /\ busy = FALSE
Carried(cks) == LET s == SelectSeq(AllCookies(cks), LAMBDA c : c.k = B("sessionid")) IN [i \in 1..Len(s) |-> s[i].v]
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Data(d) == {[k |-> d[i].k, v |-> d[i].v] : i \in 1..Len(d)}
\* announced identifiers
Told == LET h == HeaderVs(ob, B("Set-Cookie")) IN
        LET c == [i \in 1..Len(h) |-> SetCookie(h[i]).kv] IN SelectSeq(c, LAMBDA x : StartsWith(x, B("sessionid=")))
IdIn(x) == SubSeq(x, 11, Len(x))
Holds(s) == s.on /\ s.d # {}
Head1 == tell' = IF ob = <<>> THEN tell \cup {Holds(ses)} ELSE tell
\* the session changed while the head may be still to come
Later == tell' = IF ob = <<>> /\ tell # {} THEN tell \cup {Holds(ses')} ELSE tell
Same == UNCHANGED <<st, ses, ids, seen, tell, ob, busy>>
TNext ==
  \/ (Is("open") \/ Is("in") \/ Is("close") \/ Is("st") \/ Is("cut")) /\ Same /\ Advance
  \/ /\ Is("req") /\ ~busy /\ busy' = TRUE /\ ids' = Carried(Ev.ck) /\ seen' = seen \cup SeqSet(Carried(Ev.ck))
     /\ ses' = None /\ tell' = {} /\ ob' = <<>> /\ Advance /\ UNCHANGED st
  \/ /\ Is("sget") /\ Ev.has /\ \E s \in Opened(st, ses, ids) : s.d = Data(Ev.d) /\ Cardinality(s.d) = Len(Ev.d) /\ ses' = s
     /\ Later /\ Advance /\ UNCHANGED <<st, ids, seen, ob, busy>>
  \/ /\ Is("s1") /\ \E s \in Opened(st, ses, ids) :
          /\ IF Ev.has THEN [k |-> Ev.k, v |-> Ev.v] \in s.d ELSE \A e \in s.d : e.k # Ev.k
          /\ ses' = s
     /\ Later /\ Advance /\ UNCHANGED <<st, ids, seen, ob, busy>>
  \/ /\ Is("sset") /\ Ev.has /\ \E s \in Opened(st, ses, ids) : ses' = [s EXCEPT !.d = SetK(@, Ev.k, Ev.v)]
     /\ Later /\ Advance /\ UNCHANGED <<st, ids, seen, ob, busy>>
  \/ /\ Is("sdel") /\ Ev.has /\ \E s \in Opened(st, ses, ids) : ses' = [s EXCEPT !.d = DelK(@, Ev.k)]
     /\ Later /\ Advance /\ UNCHANGED <<st, ids, seen, ob, busy>>
  \/ /\ Is("sfree") /\ \E s \in Opened(st, ses, ids) : st' = Drop(st, s)
     /\ ses' = None /\ Later /\ Advance /\ UNCHANGED <<ids, seen, ob, busy>>
  \/ /\ Is("op") /\ (IF Ev.op \in {"write", "flush", "headers"} THEN Head1 ELSE UNCHANGED tell) /\ Advance /\ UNCHANGED <<st, ses, ids, seen, ob, busy>>
  \/ Is("ret") /\ Head1 /\ Advance /\ UNCHANGED <<st, ses, ids, seen, ob, busy>>
  \/ Is("out") /\ ob' = ob \o Ev.d /\ Advance /\ UNCHANGED <<st, ses, ids, seen, tell, busy>>
  \/ /\ Is("done") /\ busy /\ busy' = FALSE
     /\ LET t == Told IN
        IF t = <<>> THEN FALSE \in tell /\ st' = Close(st, ses) /\ UNCHANGED seen
        ELSE /\ Len(t) = 1 /\ TRUE \in tell
             /\ LET id == IdIn(t[1]) IN
                /\ seen' = seen \cup {id}
                /\ IF ~ses.on THEN IdOk(id) /\ UNCHANGED st      \* dropped after it was announced
                   ELSE IF ses.id # <<>> THEN (id = ses.id /\ st' = Close(st, ses))
                   ELSE IdOk(id) /\ id \notin seen /\ st' = Close(st, [ses EXCEPT !.id = id])
     /\ Advance /\ UNCHANGED <<ses, ids, tell, ob>>
  \/ Is("end") /\ Ev.live = 0 /\ Same /\ Advance
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
