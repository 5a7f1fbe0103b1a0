------------------------------ MODULE HttpTrace ------------------------------
EXTENDS HttpConn, TraceBase
VARIABLES custom   \* an error handler is installed
tvars == <<conns, limits, custom, tid, l>>
TInit == TBInit /\ CInit /\ custom = FALSE
K == UNCHANGED limits /\ UNCHANGED custom
TNext ==
  /\ \/ Is("max") /\ limits' = <<Ev.post, Ev.file>> /\ UNCHANGED <<conns, custom>>
     \/ Is("custom") /\ custom' = TRUE /\ UNCHANGED <<conns, limits>>
     \/ Is("open") /\ Open(Ev.c) /\ K
     \/ Is("in") /\ Recv(Ev.c, Ev.d) /\ K
     \/ Is("req") /\ (IF S(Ev.c).st = "redir" THEN CallAgain(Ev.c, Ev) ELSE Call(Ev.c, Ev)) /\ K
     \/ Is("redir") /\ Redirect(Ev.c, Ev.d) /\ K
     \/ Is("op") /\ K /\
        CASE Ev.op = "code" -> SetCode(Ev.c, Ev.i)
          [] Ev.op = "header" -> SetHdr(Ev.c, Ev.d, Ev.v)
          [] Ev.op = "length" -> SetLen(Ev.c, Ev.i)
          [] Ev.op \in {"write", "write0", "printf"} -> Write(Ev.c, Ev.d, Ev.r)
          [] Ev.op = "flush" -> Flush(Ev.c, Ev.r)
          [] Ev.op = "headers" -> WriteHeaders(Ev.c)
          [] Ev.op = "nokeep" -> NoKeep(Ev.c)
          [] Ev.op = "shortcut" /\ Ev.kind = 0 -> ShortcutResp(Ev.c, 302, <<[k |-> B("Location"), v |-> Ev.d]>>, B("<h1>302 - Moved</h1>")) /\ Ev.r = 2
          [] Ev.op = "shortcut" /\ Ev.kind = 1 -> ShortcutResp(Ev.c, Ev.i, <<>>, Ev.d) /\ Ev.r = 2
          [] Ev.op = "shortcut" /\ Ev.kind = 4 -> ShortcutResp(Ev.c, Ev.i, <<[k |-> B("X-Extra"), v |-> B("one")], [k |-> B("X-More"), v |-> B("two")]>>, Ev.d) /\ Ev.r = 2
          [] Ev.op = "shortcut" /\ Ev.kind = 3 -> UNCHANGED conns
          [] OTHER -> FALSE
     \/ Is("gethdr") /\ K /\ UNCHANGED conns /\
        (S(Ev.c).st = "wild" \/ LET v == Values(S(Ev.c).req.h, Ev.k) IN
            Ev.has = (v # <<>>) /\ (v # <<>> => \E i \in 1..Len(v) : NormV(Ev.v) = NormV(v[i].v)))
     \/ Is("ret") /\ Return(Ev.c, Ev.st, custom) /\ K
     \/ Is("errh") /\ ErrHandler(Ev.c) /\ K
     \/ Is("eret") /\ ErrReturn(Ev.c, Ev.st) /\ K
     \/ Is("out") /\ Send(Ev.c, Ev.d) /\ K
     \/ Is("werr") /\ WErr(Ev.c) /\ K
     \/ Is("st") /\ RoundEnd(Ev.c, Ev.open, Ev.left) /\ K
     \* there is no place for an uploaded file: that request cannot be served
     \/ Is("nofile") /\ Set(Ev.c, [S(Ev.c) EXCEPT !.st = "wild"]) /\ K
     \/ Is("eof") /\ Eof(Ev.c) /\ K
     \/ Is("cut") /\ Eof(Ev.c) /\ K
     \/ Is("close") /\ Known(Ev.c) /\ UNCHANGED conns /\ K
     \/ Is("end") /\ UNCHANGED conns /\ K
     \* everything the connections held was given back
     \/ Is("res") /\ UNCHANGED conns /\ K /\ Ev.live = 0 /\ Ev.fds = 0 /\ Ev.tmp = 0
  /\ Advance
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
