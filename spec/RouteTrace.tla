----------------------------- MODULE RouteTrace -----------------------------
EXTENDS Route, HttpReq, HttpResp, TraceBase
VARIABLES table, inb, visits, out
tvars == <<table, inb, visits, out, tid, l>>
TInit == TBInit /\ table = <<>> /\ inb = <<>> /\ visits = <<>> /\ out = <<>>
ByKey(d, k) == LET s == SelectSeq(d, LAMBDA x : x.k = k) IN [i \in 1..Len(s) |-> s[i].v]
Keys(d) == {d[i].k : i \in 1..Len(d)}
SamePars(a, b) == Keys(a) = Keys(b) /\ \A k \in Keys(a) : ByKey(a, k) = ByKey(b, k)
NonEmpty(d) == SelectSeq(d, LAMBDA x : x.k # <<>>)
VisitOk(ev, x, q) == ev.id = x.id /\ ev.path = x.path /\ ev.fp = q.fp /\ SamePars(NonEmpty(ev.get), q.get \o x.par)
Code(st) == CASE st = 0 -> 404 [] st = -500 -> 500 [] st = -501 -> 501 [] st = -502 -> 403 [] OTHER -> 200
RespIs(o, p) ==
  /\ p.ok
  /\ IF o.st # 2 THEN p.code = Code(o.st)
     ELSE IF o.by[1].t = "static" THEN p.code = o.by[1].code /\ p.body = o.by[1].text
     ELSE p.code = 200 /\ p.body = DecBytes(o.by[1].id)
Served(q) ==
  \E o \in Chain(table, Tail(q.fp), <<>>) :
     /\ Len(o.v) = Len(visits) /\ \A k \in 1..Len(visits) : VisitOk(visits[k], o.v[k], q)
     /\ RespIs(o, ParseResp(out, FALSE))
TNext ==
  /\ \/ Is("table") /\ table' = Ev.hs /\ UNCHANGED <<inb, visits, out>>
     \/ Is("badrule") /\ Ev.r # 0 /\ UNCHANGED <<table, inb, visits, out>>
     \/ Is("rule") /\ Ev.r = 0 /\ UNCHANGED <<table, inb, visits, out>>
     \/ Is("open") /\ inb' = <<>> /\ visits' = <<>> /\ out' = <<>> /\ UNCHANGED table
     \/ Is("in") /\ inb' = inb \o Ev.d /\ UNCHANGED <<table, visits, out>>
     \/ Is("leaf") /\ visits' = Append(visits, Ev) /\ UNCHANGED <<table, inb, out>>
     \/ Is("out") /\ out' = out \o Ev.d /\ UNCHANGED <<table, inb, visits>>
     \/ Is("st") /\ ParseReq(inb, 1000, 1000).st = "ready" /\ Served(ParseReq(inb, 1000, 1000)) /\ UNCHANGED <<table, inb, visits, out>>
     \/ Is("close") /\ UNCHANGED <<table, inb, visits, out>>
     \* freeing the handlers leaves nothing behind
     \/ Is("end") /\ Ev.live = 0 /\ UNCHANGED <<table, inb, visits, out>>
  /\ Advance
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
