------------------------------ MODULE HttpConn ------------------------------
(* Connections of a server: bytes come in, requests are handed to the handler one by one, the        *)
(* handler's operations define the response, bytes go out, the connection stays open or is closed.    *)
EXTENDS HttpReq, HttpResp

VARIABLES conns,      \* connection number -> record
          limits      \* <<max post size, max file size>>

CInit == conns = <<>> /\ limits = <<1048576, 1073741823>>

\* response under construction
NewResp == [codes |-> {200}, must |-> <<>>, may |-> <<>>, len |-> -1, hs |-> "no", body |-> <<>>, pre |-> <<>>, ret |-> 2, nokeep |-> FALSE, conn |-> FALSE,
            werr |-> FALSE, fresh |-> FALSE, page |-> FALSE, misuse |-> FALSE]
NewConn == [st |-> "idle", inb |-> <<>>, req |-> Empty, r |-> NewResp, out |-> <<>>, served |-> 0, nokeep |-> FALSE, depth |-> 0]

Known(c) == c \in DOMAIN conns
S(c) == conns[c]
Set(c, s) == conns' = [x \in DOMAIN conns \union {c} |-> IF x = c THEN s ELSE conns[x]]

\* ---------------------------------------------------------------- keep alive
ConnVals(q) == LET v == Values(q.h, B("Connection")) IN [i \in 1..Len(v) |-> Lower(v[i].v)]
WishKeep(q) == IF q.v11 THEN ConnVals(q) = <<>> \/ (Len(ConnVals(q)) = 1 /\ ~Has(ConnVals(q)[1], B("close")))
               ELSE Len(ConnVals(q)) = 1 /\ ConnVals(q)[1] = B("keep-alive")
WishClose(q) == IF q.v11 THEN Len(ConnVals(q)) = 1 /\ ConnVals(q)[1] = B("close")
                ELSE \A i \in 1..Len(ConnVals(q)) : ~Has(ConnVals(q)[i], B("keep-alive"))

\* ---------------------------------------------------------------- is this an acceptable response
AutoNames == {B("content-length"), B("content-type"), B("date"), B("server"), B("connection"), B("transfer-encoding"), B("set-cookie")}
HdrOk(h, r) ==
  /\ \A i \in 1..Len(r.must) : RVals(h, r.must[i].k) = <<r.must[i].v>> \/ \E j \in 1..Len(r.may) : IEq(r.may[j].k, r.must[i].k) /\ RVals(h, r.must[i].k) = <<r.may[j].v>>
  /\ \A i \in 1..Len(h) : \/ Lower(h[i].k) \in AutoNames
                          \/ \E j \in 1..Len(r.must) : IEq(r.must[j].k, h[i].k)
                          \/ \E j \in 1..Len(r.may) : IEq(r.may[j].k, h[i].k) /\ r.may[j].v = h[i].v
\* what was sent when the transport failed is a prefix of an acceptable response
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
PrefixOk(s) ==
  LET o == s.out hd == RespHead(o) r == s.r IN
  IF ~hd.ok THEN \A k \in 1..Min2(Len(o), 9) : o[k] \in {B("HTTP/1.1 ")[k], B("HTTP/1.0 ")[k]}
  ELSE /\ hd.code \in r.codes /\ HdrOk(hd.h, r)
       /\ IF s.req.m = "HEAD" THEN SubSeq(o, hd.start, Len(o)) = <<>>
          ELSE LET d == Delivered(o, hd) IN d.ok /\ (r.page \/ IsPrefix(d.body, r.body) \/ IsPrefix(d.body, r.pre \o r.body))
\* s: connection with a finished handler; stays: the connection is kept open afterwards
RespOk(s, stays) ==
  LET q == s.req  r == s.r  p == ParseResp(s.out, q.m = "HEAD") IN
  IF r.werr THEN ~stays /\ PrefixOk(s)
  ELSE
   \* the handler announced a wrong length: the client must be able to notice
   \/ r.misuse /\ p.framing # "none" /\ RespHead(s.out).ok /\ ~stays /\ (p.after = r.body \/ p.after = r.pre \o r.body \/ (r.page /\ IsPrefix(r.body, p.after)))
   \/
    /\ p.ok
    /\ p.code \in r.codes
    /\ HdrOk(p.h, r)
    /\ p.framing = "none" => p.rest = <<>>
    /\ p.framing = "chunk" => q.v11
    /\ p.framing = "close" => ~stays
    /\ p.rest = <<>>
    /\ q.m # "HEAD" /\ ~NoBodyCode(p.code) => IF r.page THEN p.body # <<>> ELSE p.body = r.body \/ p.body = r.pre \o r.body
    /\ stays => ~WishClose(q) /\ ~r.nokeep /\ ~s.nokeep /\ r.ret >= 0 /\ \A i \in 1..Len(RVals(p.h, B("Connection"))) : ~IEq(RVals(p.h, B("Connection"))[i], B("close"))
    /\ stays /\ ~q.v11 => \E i \in 1..Len(RVals(p.h, B("Connection"))) : IEq(RVals(p.h, B("Connection"))[i], B("keep-alive"))
    /\ ~stays => \/ ~WishKeep(q) \/ r.nokeep \/ s.nokeep \/ r.ret < 0 \/ p.framing = "close" \/ r.conn \/ r.misuse
                 \/ (p.framing = "none" /\ p.cl = -1 /\ (~q.v11 \/ (NoBodyCode(p.code) /\ \E i \in 1..Len(RVals(p.h, B("Connection"))) : IEq(RVals(p.h, B("Connection"))[i], B("close")))))

\* ---------------------------------------------------------------- transitions
Open(c) == ~Known(c) /\ Set(c, NewConn)

Recv(c, d) == /\ S(c).st \in {"idle", "wild"}
              /\ Set(c, IF S(c).st = "wild" THEN S(c) ELSE [S(c) EXCEPT !.inb = @ \o d])

\* the response of the request being served is complete and the connection goes on
Finished(s) == [NewConn EXCEPT !.inb = SubSeq(s.inb, s.req.used + 1, Len(s.inb)), !.served = s.served + 1, !.nokeep = s.nokeep \/ s.r.nokeep]
\* state of connection c when the next request may start: idle, or finished with a response that allows to go on
Ready(s) == IF s.st = "done" THEN Finished(s) ELSE s
MayGoOn(s) == s.st = "idle" \/ (s.st = "done" /\ RespOk(s, TRUE))

\* the handler is called and sees seen
Call(c, seen) ==
  IF S(c).st = "wild" THEN UNCHANGED conns
  ELSE /\ MayGoOn(S(c))
       /\ LET s == Ready(S(c)) p == ParseReq(s.inb, limits[1], limits[2]) IN
          \/ p.st = "any" /\ Set(c, [s EXCEPT !.st = "wild"])
          \/ p.st = "ready" /\ SeenRight(seen, p) /\ Set(c, [s EXCEPT !.st = "busy", !.req = p, !.r = NewResp, !.out = <<>>])

Busy(c) == S(c).st = "busy"
SetR(c, r) == Set(c, [S(c) EXCEPT !.r = r])
InR(c, f(_)) == IF S(c).st = "wild" THEN UNCHANGED conns ELSE Busy(c) /\ SetR(c, f(S(c).r))

ReplaceH(h, k, v) == Append(SelectSeq(h, LAMBDA x : ~IEq(x.k, k)), [k |-> k, v |-> v])
SetCode(c, n) == InR(c, LAMBDA r : IF r.hs = "no" THEN [r EXCEPT !.codes = {n}] ELSE IF r.hs = "maybe" THEN [r EXCEPT !.codes = @ \union {n}] ELSE r)
SetHdr(c, k, v) == InR(c, LAMBDA r0 : LET r == IF IEq(k, B("connection")) THEN [r0 EXCEPT !.conn = TRUE] ELSE r0 IN
                    IF r.hs = "no" THEN [r EXCEPT !.must = ReplaceH(@, k, v)] ELSE IF r.hs = "maybe" THEN [r EXCEPT !.may = Append(@, [k |-> k, v |-> v])] ELSE r)
SetLen(c, n) == InR(c, LAMBDA r : IF r.hs = "yes" THEN [r EXCEPT !.misuse = @ \/ r.len = -1 \/ r.len # n] ELSE [r EXCEPT !.len = n])
NoBodyMay(r) == \E x \in r.codes : NoBodyCode(x)
Write(c, d, ret) ==
  IF S(c).st = "wild" THEN UNCHANGED conns
  ELSE LET r == S(c).r IN
    /\ Busy(c)
    /\ r.werr \/ S(c).req.m = "HEAD" \/ NoBodyMay(r) \/ ret = Len(d)
    /\ r.fresh => ret < Len(d) \/ d = <<>>
    /\ SetR(c, [r EXCEPT !.body = @ \o d, !.fresh = FALSE,
                         !.hs = IF r.hs = "yes" \/ (d = <<>> /\ r.hs = "no") THEN @ ELSE IF d = <<>> THEN "yes" ELSE "maybe"])
Flush(c, ret) ==
  IF S(c).st = "wild" THEN UNCHANGED conns
  ELSE LET r == S(c).r IN
    /\ Busy(c)
    /\ IF r.fresh THEN ret < 0 ELSE r.werr \/ ret >= 0
    \* what was written so far is on its way now
    /\ ~r.werr /\ S(c).req.m # "HEAD" /\ ~NoBodyMay(r) /\ r.pre = <<>> =>
         IF r.body = <<>> THEN TRUE
         ELSE LET hd == RespHead(S(c).out) IN hd.ok /\ LET d == Delivered(S(c).out, hd) IN d.ok /\ d.body = r.body
    /\ SetR(c, [r EXCEPT !.hs = IF r.body # <<>> THEN "yes" ELSE @, !.fresh = FALSE])
WriteHeaders(c) == InR(c, LAMBDA r : [r EXCEPT !.hs = "yes", !.fresh = FALSE])
NoKeep(c) == InR(c, LAMBDA r : [r EXCEPT !.nokeep = TRUE])

\* shortcut responses: status, headers and body at once
ShortcutResp(c, code, hs, body) ==
  InR(c, LAMBDA r : [r EXCEPT !.codes = IF r.hs = "yes" THEN @ ELSE IF r.hs = "maybe" THEN @ \union {code} ELSE {code},
                              !.must = IF r.hs = "no" THEN SelectSeq(@, LAMBDA x : \A i \in 1..Len(hs) : ~IEq(x.k, hs[i].k)) \o hs ELSE @,
                              !.may = IF r.hs = "maybe" THEN @ \o hs ELSE @,
                              !.len = IF r.hs = "yes" THEN @ ELSE Len(body),
                              !.body = @ \o body, !.hs = "yes", !.fresh = FALSE])
\* internal redirect: the handlers run again with another path
Redirect(c, url) ==
  IF S(c).st = "wild" THEN UNCHANGED conns
  ELSE Busy(c) /\ Set(c, [S(c) EXCEPT !.st = "redir", !.depth = @ + 1, !.req.fp = url])
CallAgain(c, seen) ==
  /\ S(c).st = "redir"
  /\ SeenRight([seen EXCEPT !.path = Tail(S(c).req.fp)], S(c).req) /\ seen.path = S(c).req.fp
  /\ Set(c, [S(c) EXCEPT !.st = "busy"])

ErrCode(st) == CASE st = 0 -> 404 [] st = -500 -> 500 [] st = -501 -> 501 [] st = -502 -> 403 [] OTHER -> 0
Closing(r) == [r EXCEPT !.misuse = @ \/ (r.len # -1 /\ r.len # Len(r.body))]
\* the handler returns st; custom: the application has its own error handler
Return(c, st, custom) ==
  IF S(c).st = "wild" THEN UNCHANGED conns
  ELSE IF Busy(c) /\ S(c).depth > 0 THEN Set(c, [S(c) EXCEPT !.depth = @ - 1])
  ELSE /\ Busy(c)
       /\ LET s == S(c) r == s.r code == ErrCode(st) IN
          IF code = 0 THEN Set(c, [s EXCEPT !.st = "done", !.r = [Closing(r) EXCEPT !.ret = st]])
          ELSE IF custom THEN Set(c, [s EXCEPT !.st = "erring", !.r = [r EXCEPT !.ret = st]])
          ELSE Set(c, [s EXCEPT !.st = "done", !.r =
                 [r EXCEPT !.ret = 2, !.page = TRUE, !.codes = IF r.hs = "yes" \/ Len(r.body) >= 1500 THEN @ \union {code} ELSE {code},
                           !.must = IF r.hs = "no" THEN @ ELSE <<>>, !.may = @ \o r.must,
                           !.misuse = ((r.hs = "yes" \/ Len(r.body) >= 1500) /\ r.len # -1)]])
ErrHandler(c) ==
  IF S(c).st = "wild" THEN UNCHANGED conns
  ELSE S(c).st = "erring" /\ Set(c, [S(c) EXCEPT !.st = "busy", !.r = [S(c).r EXCEPT !.pre = S(c).r.body, !.body = <<>>]])
ErrReturn(c, st) ==
  IF S(c).st = "wild" THEN UNCHANGED conns
  ELSE Busy(c) /\ Set(c, [S(c) EXCEPT !.st = "done", !.r = [Closing(S(c).r) EXCEPT !.ret = IF st = 0 THEN 2 ELSE st,
                                        !.misuse = S(c).r.len # -1 /\ S(c).r.len \notin {Len(S(c).r.body), Len(S(c).r.body) + Len(S(c).r.pre)}]])

Send(c, d) == IF S(c).st = "wild" THEN UNCHANGED conns ELSE S(c).st \in {"busy", "done", "erring"} /\ Set(c, [S(c) EXCEPT !.out = @ \o d])
WErr(c) == IF S(c).st = "wild" THEN UNCHANGED conns ELSE S(c).st \in {"busy", "done", "erring"} /\ Set(c, [S(c) EXCEPT !.r = [@ EXCEPT !.werr = TRUE, !.fresh = (S(c).st = "busy")]])

\* a read round ends; left: bytes of the segment not read yet
RoundEnd(c, open, left) ==
  IF S(c).st = "gone" THEN ~open /\ UNCHANGED conns
  ELSE IF S(c).st = "wild" THEN Set(c, IF open THEN S(c) ELSE [S(c) EXCEPT !.st = "gone"])
  ELSE IF S(c).st = "done" /\ ~open /\ RespOk(S(c), FALSE) THEN Set(c, [S(c) EXCEPT !.st = "gone"])
  ELSE /\ MayGoOn(S(c))
       /\ LET s == Ready(S(c)) IN
          IF left > 0 /\ open THEN Set(c, s)
          ELSE LET p == ParseReq(s.inb, limits[1], limits[2]) IN
               /\ IF open THEN p.st \in {"need", "maybe", "any"}
                          ELSE p.st \in {"bad", "maybe", "any"} \/ (s.nokeep /\ s.served > 0)
               /\ Set(c, IF open THEN s ELSE [s EXCEPT !.st = "gone"])
Eof(c) == Set(c, [S(c) EXCEPT !.st = "gone"])
=============================================================================
