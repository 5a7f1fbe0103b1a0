------------------------------ MODULE WsTrace ------------------------------
(* Checks a recorded websocket connection against Ws.                       *)
EXTENDS Ws, Codec, HttpResp, TraceBase, Sha1
VARIABLES st,      \* "none", "plain", "ws", "over"
          fr,      \* the client's frames
          at,      \* how far the application has consumed them
          rdn,     \* bytes of frames read so far
          ob,      \* bytes written and not yet accounted for
          np,      \* pongs sent
          app,     \* the application: [cb, ud (current), given, freed, refused, goodbye, op, empty]
          tr,      \* transport broken, connection closed
          wr       \* a write under way: <<op, data>> or <<>>
vars == <<tid, l, st, fr, at, rdn, ob, np, app, tr, wr>>
keep == UNCHANGED <<st, fr, at, rdn, np, app, tr, wr>>
Magic == B("258EAFA5-E914-47DA-95CA-C5AB0DC85B11")
HV(h, k) == LET s == SelectSeq(h, LAMBDA e : IEq(e.k, k)) IN IF s = <<>> THEN <<>> ELSE <<s[1].v>>
RECURSIVE LeadDig(_, _)
LeadDig(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN LeadDig(s, i + 1) ELSE i - 1
Proper(h) == /\ HV(h, B("Upgrade")) # <<>> /\ IEq(HV(h, B("Upgrade"))[1], B("websocket"))
             /\ HV(h, B("Sec-Websocket-Key")) # <<>> /\ HV(h, B("Sec-Websocket-Version")) = <<B("13")>>
Maybe(h) == /\ HV(h, B("Upgrade")) # <<>> /\ IEq(HV(h, B("Upgrade"))[1], B("websocket"))     \* an odd way to write 13
            /\ HV(h, B("Sec-Websocket-Key")) # <<>> /\ HV(h, B("Sec-Websocket-Version")) # <<>>
            /\ LET v == HV(h, B("Sec-Websocket-Version"))[1] IN ~AllDigits(v) /\ HasByte(v, 49)
TInit == /\ TBInit /\ st = "none" /\ fr = <<>> /\ at = [i |-> 1, o |-> 0] /\ rdn = 0 /\ ob = <<>> /\ np = 0
         /\ app = [cb |-> FALSE, ud |-> 0, given |-> {}, freed |-> {}, minus |-> 0, refused |-> FALSE, bye |-> 0, named |-> 0] /\ tr = [broken |-> FALSE, closed |-> FALSE] /\ wr = <<>>
\* the frames written since the last event account for: pongs in order of the pings read, a close reply, and data
AllPings == SelectSeq(SubSeq(fr, 1, Min2(Len(fr), EndAt(fr))), LAMBDA f : f.op = 9 /\ ~Unfit(f))
CloseF == LET i == EndAt(fr) IN IF i <= Len(fr) /\ fr[i].op = 8 /\ fr[i].done /\ ~Unfit(fr[i]) THEN <<fr[i]>> ELSE <<>>
\* a close frame as the answer to the client's; after an improper frame any will do
FarewellOk(f) == LET i == EndAt(fr) IN
  \/ i <= Len(fr) /\ Unfit(fr[i]) /\ fr[i].hend <= rdn
  \/ CloseF # <<>> /\ CloseF[1].end <= rdn /\ SubSeq(f.d, 1, Min2(2, f.len)) = SubSeq(CloseF[1].d, 1, Min2(2, CloseF[1].len))
OutOk(fs, data) ==     \* fs: frames; data: what the application wrote, <<>> or <<op, bytes>>
  LET po == Pongs(fs) cl == Closes(fs) da == Data(fs) IN
  /\ \A k \in 1..Len(fs) : ServerFrame(fs[k]) /\ fs[k].op \in {0, 1, 2, 8, 10}
  /\ np + Len(po) <= Len(AllPings)
  /\ \A k \in 1..Len(po) : LET p == AllPings[np + k] IN p.end <= rdn /\ p.done /\ po[k].d = p.d
  /\ IF data # <<>> /\ data[1] = 8 THEN Len(cl) = 1 /\ cl[1].d = data[2] /\ da = <<>>
     ELSE /\ IF data = <<>> THEN da = <<>> ELSE Message(da, data[1], data[2])
          /\ cl = <<>> \/ (Len(cl) = 1 /\ fs[Len(fs)].op = 8 /\ app.bye = 0 /\ FarewellOk(cl[1]))
\* account for everything written
SettledR(data, no, nm) == \/ tr.broken /\ ob' = <<>> /\ UNCHANGED <<np>> /\ app' = [app EXCEPT !.refused = (app.refused \/ no), !.named = IF nm = 0 THEN app.named ELSE nm]
                 \/ /\ ~tr.broken /\ Whole(ob)
                    /\ LET fs == Frames(ob, 1, <<>>) IN OutOk(fs, data) /\ np' = np + Len(Pongs(fs)) /\ ob' = <<>>
                                                        /\ app' = [app EXCEPT !.bye = app.bye + Len(Closes(fs)), !.refused = (app.refused \/ no), !.named = IF nm = 0 THEN app.named ELSE nm]
Settled(data) == SettledR(data, FALSE, 0)
---- \* events
EvIn == Is("in") /\ (IF st \in {"ws", "over"} THEN rdn' = rdn + Len(Ev.d) ELSE UNCHANGED rdn) /\ Advance /\ UNCHANGED <<st, fr, at, ob, np, app, tr, wr>>
EvOut == Is("out") /\ ~tr.closed /\ ob' = ob \o Ev.d /\ Advance /\ keep
EvWerr == Is("werr") /\ tr' = [tr EXCEPT !.broken = TRUE] /\ Advance /\ UNCHANGED <<st, fr, at, rdn, ob, np, app, wr>>
EvOpen == Is("open") /\ st = "none" /\ Advance /\ keep /\ UNCHANGED ob
\* the handler asked for a websocket
EvHs == /\ Is("hs") /\ st = "none"
        /\ \/ /\ ~Ev.ok /\ ~Proper(Ev.h) /\ ob = <<>> /\ st' = "plain" /\ UNCHANGED <<fr, ob>>
           \/ /\ Ev.ok /\ (Proper(Ev.h) \/ Maybe(Ev.h)) /\ st' = "ws" /\ fr' = Frames(Ev.stream, 1, <<>>) /\ ob' = <<>>
              /\ \/ tr.broken
                 \/ LET hd == RespHead(ob) IN
                    /\ hd.ok /\ hd.code = 101 /\ hd.start = Len(ob) + 1
                    /\ RVals(hd.h, B("Sec-WebSocket-Accept")) = <<B64Enc(Sha1(HV(Ev.h, B("Sec-Websocket-Key"))[1] \o Magic))>>
                    /\ Len(RVals(hd.h, B("Upgrade"))) = 1 /\ IEq(RVals(hd.h, B("Upgrade"))[1], B("websocket"))
                    /\ Len(RVals(hd.h, B("Connection"))) = 1 /\ IEq(RVals(hd.h, B("Connection"))[1], B("Upgrade"))
                    /\ RVals(hd.h, B("Content-Length")) = <<>> /\ RVals(hd.h, B("Transfer-Encoding")) = <<>>
                    /\ LET p == HV(Ev.h, B("Sec-Websocket-Protocol")) IN p # <<>> => RVals(hd.h, B("Sec-WebSocket-Protocol")) = p
                    /\ HV(Ev.h, B("Sec-Websocket-Protocol")) = <<>> => RVals(hd.h, B("Sec-WebSocket-Protocol")) = <<>>
        /\ Advance /\ UNCHANGED <<at, rdn, np, app, tr, wr>>
\* asked again on the same request: the same one
EvHs2 == Is("hs2") /\ Ev.same /\ st \in {"plain", "ws"} /\ Advance /\ keep /\ UNCHANGED ob
EvSet == /\ Is("set") /\ Settled(<<>>) /\ Advance /\ UNCHANGED <<st, fr, at, rdn, tr, wr>>
EvSetCb == Is("setcb") /\ app' = [app EXCEPT !.cb = Ev.on] /\ Advance /\ UNCHANGED <<st, fr, at, rdn, ob, np, tr, wr>>
\* new user data: the former is given back exactly now
EvUd == /\ Is("ud") /\ app.freed = app.given
        /\ app' = [app EXCEPT !.ud = Ev.id, !.given = app.given \union {Ev.id}]
        /\ Advance /\ UNCHANGED <<st, fr, at, rdn, ob, np, tr, wr>>
EvFreed == /\ Is("freed") /\ Ev.id \in app.given /\ Ev.id \notin app.freed
           /\ app' = [app EXCEPT !.freed = app.freed \union {Ev.id}] /\ Advance /\ UNCHANGED <<st, fr, at, rdn, ob, np, tr, wr>>
EvCb == /\ Is("cb") /\ st = "ws" /\ app.cb /\ ~app.refused /\ Ev.n >= 0 /\ Ev.ud = app.ud /\ Ev.ud \notin app.freed
        /\ LET a == Settle(fr, at) IN
           /\ Here(fr, a) /\ Ev.n = fr[a.i].len - a.o /\ (a.o = 0 /\ a.i # app.named => Ev.op \in OpsAt(fr, a.i)) /\ fr[a.i].hend <= rdn
           /\ at' = IF fr[a.i].len = 0 THEN [i |-> a.i + 1, o |-> 0] ELSE a
           /\ SettledR(<<>>, FALSE, a.i)
           /\ (tr.broken \/ np' >= Len(PingsBefore(fr, a.i)))
        /\ Advance /\ UNCHANGED <<st, fr, rdn, tr, wr>>
EvCbEnd == /\ Is("cbend") /\ SettledR(<<>>, Ev.st # 1, 0) /\ Advance /\ UNCHANGED <<st, fr, at, rdn, tr, wr>>
EvMinus == /\ Is("cb") /\ st \in {"ws", "over"} /\ app.cb /\ Ev.n < 0 /\ app.minus = 0 /\ Ev.ud = app.ud /\ Ev.ud \notin app.freed
           /\ app' = [app EXCEPT !.minus = 1] /\ st' = "over" /\ Advance /\ UNCHANGED <<fr, at, rdn, ob, np, tr, wr>>
EvRd == /\ Is("rd") /\ st = "ws" /\ Settled(<<>>)
        /\ IF Ev.r > 0 THEN LET t == TakeD(fr, at, Ev.r, <<>>) IN Ev.r <= Ev.want /\ t.ok /\ t.d = Ev.d /\ at' \in {t.at} \union (IF Ev.r < Ev.want THEN {PastEmpty(fr, t.at)} ELSE {})
           ELSE IF Ev.want = 0 THEN UNCHANGED at ELSE Dry(fr, at) /\ at' = PastEmpty(fr, at)
        /\ Advance /\ UNCHANGED <<st, fr, rdn, tr, wr>>
EvWrb == Is("wrb") /\ wr = <<>> /\ Settled(<<>>) /\ wr' = <<Ev.op, Ev.d>> /\ Advance /\ UNCHANGED <<st, fr, at, rdn, tr>>
EvWre == /\ Is("wre") /\ wr # <<>> /\ Settled(wr) /\ wr' = <<>>
         /\ IF tr.broken THEN Ev.r <= Len(wr[2]) ELSE Ev.r = Len(wr[2])
         /\ (Ev.failed => tr.broken /\ (Ev.r < 0 \/ (Ev.r < Len(wr[2]))))
         /\ Advance /\ UNCHANGED <<st, fr, at, rdn, tr>>
\* the library gives the connection up
Over == st = "plain" \/ app.refused \/ ~app.cb \/ tr.broken \/ (IF EndAt(fr) <= Len(fr) THEN Settle(fr, at).i >= EndAt(fr) ELSE NoMore(fr, at))
\* and then everything read has been answered
Answered == /\ np' >= Len(SelectSeq(PingsBefore(fr, Settle(fr, at).i), LAMBDA f : f.end <= rdn))
            /\ (CloseF # <<>> /\ Settle(fr, at).i >= EndAt(fr) /\ ~app.refused /\ app.cb => app'.bye >= 1)
EvEnd == /\ Is("done") /\ st \in {"ws", "over", "plain"} /\ wr = <<>>
         /\ IF st = "plain" THEN UNCHANGED <<np, app>> /\ ob' = <<>> /\ (tr.broken \/ (LET p == ParseResp(ob, FALSE) IN p.ok /\ p.code = 200 /\ p.body = B("plain")))
            ELSE Settled(<<>>) /\ (tr.broken \/ (Over /\ Answered)) /\ app.freed = app.given /\ (app.cb => app.minus = 1)
         /\ Advance /\ UNCHANGED <<st, fr, at, rdn, tr, wr>>
EvClose == Is("close") /\ ~tr.closed /\ tr' = [tr EXCEPT !.closed = TRUE] /\ Advance /\ UNCHANGED <<st, fr, at, rdn, ob, np, app, wr>>
EvFin == Is("end") /\ Ev.live = 0 /\ (st # "none" => tr.closed) /\ Advance /\ keep /\ UNCHANGED ob
TNext == EvIn \/ EvOut \/ EvWerr \/ EvOpen \/ EvHs \/ EvHs2 \/ EvSet \/ EvSetCb \/ EvUd \/ EvFreed \/ EvCb \/ EvCbEnd \/ EvMinus \/ EvRd \/ EvWrb \/ EvWre \/ EvEnd \/ EvClose \/ EvFin
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
