----------------------------- MODULE LifeTrace -----------------------------
EXTENDS Life, TraceBase
VARIABLES s, cs, st
vars == <<tid, l, s, cs, st>>
TInit == TBInit /\ s = S0 /\ cs = [j \in {} |-> NoC] /\ st = [j \in {} |-> [sure |-> FALSE, in |-> FALSE]]
C(j) == IF j \in DOMAIN cs THEN cs[j] ELSE NoC
Put(j, c) == cs' = [k \in DOMAIN cs \cup {j} |-> IF k = j THEN c ELSE cs[k]]
Running == {j \in DOMAIN cs : cs[j].run}
Open == {j \in DOMAIN cs : cs[j].st = "open"}
\* the connection a server of one at a time attends
Front(j) == j \in Open /\ cs[j].p \in Served(s) /\ \A k \in Open : (cs[k].p \in Served(s)) => cs[k].ord >= cs[j].ord
First(j) == \A k \in DOMAIN cs : (cs[k].p \in Served(s) /\ cs[k].ord > s.n) => cs[k].ord >= cs[j].ord
Outside == {i \in DOMAIN st : ~st[i].in}
\* a server of one at a time ends when its connection does
Lazy(t) == \E j \in Open : t < Max(cs[j].at, s.sure) + s.tmo + 3000
Connected(p, ok) == IF ok THEN [s EXCEPT !.cnt[p] = @ + 1, !.acc = @ \/ (p \in Served(s) /\ s.up # "no"), !.asked = @ /\ ~s.calm] ELSE s
Attended(j, t) == LET c == cs[j] IN
  IF ~s.one THEN /\ (Listening(s) /\ c.p \in Bound(s) /\ Cardinality(Running) < s.th) => c.run \/ c.hand >= Eff(s, c)
                 /\ (Listening(s) /\ Running = {}) => t < Max(c.at, s.since) + s.tmo + 4000
  ELSE (Running \subseteq {j} /\ s.ack /\ ~s.asked /\ s.up # "no" /\ Front(j) /\ (s.loop \/ First(j))) => (c.run \/ c.hand >= Eff(s, c)) /\ (~c.run => c.hand = 0)
TNext ==
  \/ Is("new") /\ s' = [s EXCEPT !.one = Ev.one, !.loop = Ev.loop, !.det = Ev.det, !.th = Ev.th, !.tmo = Ev.tmo] /\ Advance /\ UNCHANGED <<cs, st>>
  \/ Is("lp") /\ s' = [s EXCEPT !.lps = IF Ev.p \in {s.lps[k] : k \in 1..Len(s.lps)} THEN @ ELSE Append(@, Ev.p), !.good[Ev.p] = Ev.good] /\ Advance /\ UNCHANGED <<cs, st>>
  \/ /\ Is("listenb") /\ (s.up = "no" \/ s.down)
     /\ s' = [s EXCEPT !.up = "called", !.prev = (s.up = "up"), !.ack = FALSE, !.acc = FALSE, !.down = FALSE, !.sure = -1, !.since = Ev.t, !.calm = FALSE, !.cnt = [p \in Ports |-> 0], !.asked = (DOMAIN st # {}), !.n = Cardinality(DOMAIN cs)]
     /\ Advance /\ UNCHANGED <<cs, st>>
  \/ /\ Is("listene") /\ s.up = "called"
     \* it may still be ending, if somebody else waits for that
     /\ IF s.det /\ s.prev /\ s.asked /\ Ev.rc # 0 THEN s' = [s EXCEPT !.up = "up", !.ack = TRUE, !.down = TRUE]
        ELSE IF Bound(s) = {} THEN Ev.rc # 0 /\ ~Ev.fl /\ s' = [s EXCEPT !.up = "no"]
        ELSE /\ Ev.rc = 0
             /\ IF s.det THEN (MayEnd(s) \/ Ev.fl) /\ s' = [s EXCEPT !.up = "up", !.ack = ~s.asked]
                ELSE MayEnd(s) /\ ~Ev.fl /\ Running = {} /\ s' = [s EXCEPT !.up = "no", !.down = TRUE]
     /\ Advance /\ UNCHANGED <<cs, st>>
  \/ /\ Is("stopb")
     /\ st' = [i \in DOMAIN st \cup {Ev.id} |-> IF i = Ev.id THEN [sure |-> s.up # "no" /\ s.ack, in |-> Ev.in] ELSE st[i]]
     /\ s' = [s EXCEPT !.calm = FALSE, !.asked = @ \/ s.up # "no", !.sure = IF s.up # "no" /\ s.ack /\ @ < 0 THEN Ev.t ELSE @]
     /\ Advance /\ UNCHANGED cs
  \/ /\ Is("stope") /\ Ev.id \in DOMAIN st
     /\ LET x == st[Ev.id] d == s.down \/ (x.sure /\ s.sure >= 0) j == s.det /\ ~x.in /\ Outside = {Ev.id} /\ d IN
        /\ st' = [i \in DOMAIN st \ {Ev.id} |-> st[i]]
        /\ j => Running = {}
        /\ s' = [s EXCEPT !.down = d, !.up = IF j /\ @ = "up" THEN "no" ELSE @]
     /\ Advance /\ UNCHANGED cs
  \/ /\ Is("probe") /\ (MustAccept(s, Ev.p) => Ev.ok) /\ (MustRefuse(s, Ev.p) => ~Ev.ok) /\ s' = Connected(Ev.p, Ev.ok) /\ Advance /\ UNCHANGED <<cs, st>>
  \/ /\ Is("conn") /\ (MustAccept(s, Ev.p) => Ev.ok) /\ (MustRefuse(s, Ev.p) => ~Ev.ok) /\ s' = Connected(Ev.p, Ev.ok)
     /\ (IF Ev.ok THEN Put(Ev.j, [NoC EXCEPT !.p = Ev.p, !.st = "open", !.at = Ev.t, !.ord = Cardinality(DOMAIN cs) + 1]) ELSE cs' = cs) /\ Advance /\ UNCHANGED st
  \/ /\ Is("req") /\ Put(Ev.j, IF Ev.ok THEN [C(Ev.j) EXCEPT !.sent = @ + 1, !.at = Ev.t, !.cl = IF @ = 0 /\ Ev.close THEN C(Ev.j).sent + 1 ELSE @] ELSE C(Ev.j)) /\ Advance /\ UNCHANGED <<s, st>>
  \/ Is("part") /\ Put(Ev.j, [C(Ev.j) EXCEPT !.at = Ev.t]) /\ Advance /\ UNCHANGED <<s, st>>
  \/ Is("bye") /\ Put(Ev.j, [C(Ev.j) EXCEPT !.st = "bye"]) /\ Advance /\ UNCHANGED <<s, st>>
  \/ (Is("nap") \/ Is("wake")) /\ Advance /\ UNCHANGED <<s, cs, st>>
  \* handlers only run while listening
  \/ /\ Is("hb") /\ s.up # "no" /\ ~s.freed /\ Cardinality(Running) < s.th
     /\ LET c == C(Ev.j) IN c.st # "no" /\ ~c.run /\ Ev.s = c.hand + 1 /\ Ev.s <= Eff(s, c) /\ (c.p \in Served(s) \/ c.ord <= s.n) /\ Put(Ev.j, [c EXCEPT !.hand = Ev.s, !.run = TRUE])
     /\ Advance /\ UNCHANGED <<s, st>>
  \/ Is("he") /\ ~s.freed /\ (LET c == C(Ev.j) IN c.run /\ Put(Ev.j, [c EXCEPT !.run = FALSE, !.fin = c.hand, !.at = Ev.t])) /\ Advance /\ UNCHANGED <<s, st>>
  \/ /\ Is("resp") /\ (LET c == C(Ev.j) IN Ev.s = c.got + 1 /\ Ev.s <= c.fin /\ Put(Ev.j, [c EXCEPT !.got = Ev.s, !.shut = Ev.close \/ (c.cl > 0 /\ Ev.s >= c.cl)])) /\ Advance /\ UNCHANGED <<s, st>>
  \/ /\ Is("eof") /\ (LET c == C(Ev.j) IN MayEof(s, c, Ev.t) /\ (c.got = c.fin \/ c.sent > c.fin) /\ Put(Ev.j, [c EXCEPT !.st = "eof"])) /\ Advance /\ UNCHANGED <<s, st>>
  \/ /\ Is("quiet")
     /\ (s.up = "called" /\ s.det => Lazy(Ev.t) \/ Running # {})
     /\ (s.up = "called" => Bound(s) # {})
     /\ (DOMAIN st # {} => Running # {} \/ (s.one /\ Lazy(Ev.t)))
     /\ (s.sure >= 0 /\ s.up = "called" /\ ~s.det => Running # {} \/ (s.one /\ Lazy(Ev.t)))
     /\ \A j \in Open : Attended(j, Ev.t) /\ (cs[j].fin > cs[j].got => cs[j].sent > cs[j].fin)
     /\ s' = [s EXCEPT !.ack = @ \/ (s.up # "no" /\ DOMAIN st = {}), !.calm = (s.up # "no" /\ DOMAIN st = {} /\ ~s.down), !.cnt = IF ~s.one /\ Running = {} THEN [p \in Ports |-> 0] ELSE @]
     /\ Advance /\ UNCHANGED <<cs, st>>
  \/ Is("freeb") /\ s' = [s EXCEPT !.asked = TRUE] /\ Advance /\ UNCHANGED <<cs, st>>
  \/ Is("freee") /\ Running = {} /\ s' = [s EXCEPT !.freed = TRUE, !.up = "no", !.down = TRUE] /\ Advance /\ UNCHANGED <<cs, st>>
  \/ Is("end") /\ Ev.open = 0 /\ Ev.live = 0 /\ Ev.fds = 0 /\ Open = {} /\ Advance /\ UNCHANGED <<s, cs, st>>
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
