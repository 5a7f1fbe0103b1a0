------------------------------ MODULE HttpReq ------------------------------
(* What a server has to make of the bytes received on a connection.                                  *)
(* ParseReq(b, mp, mf) looks at the bytes b not yet consumed (mp, mf: maximal post and file sizes):    *)
(*   need  - the beginning of a request: wait, neither run a handler nor close                        *)
(*   maybe - as need, but the connection may also be closed                                           *)
(*   ready - a complete request, to be handed to the handler; used bytes belong to it                  *)
(*   bad   - must be refused: no handler runs and the connection is closed                            *)
(*   any   - outside the grammar considered here: nothing is demanded                                 *)
EXTENDS Bytes

Methods == {"GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "PUT", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH"}
MethodBytes == [m \in Methods |-> B(m)]
TokenOk  == 8190    \* a token of this size must be accepted
TokenBad == 8192    \* one of this size must be refused
ValueOk  == 8150

Empty == [st |-> "need", used |-> 0, m |-> "", v11 |-> FALSE, url |-> <<>>, fp |-> <<>>, get |-> <<>>, h |-> <<>>, kind |-> "none",
          post |-> <<>>, files |-> <<>>, data |-> <<>>]
Res(st) == [Empty EXCEPT !.st = st]

\* ---------------------------------------------------------------- lines
\* end of the line that starts at i: index of its LF, 0 if incomplete
LineEnd(b, i) == IndexFrom(b, i, LF)
\* contents of the line i..e (e is the LF) without its line ending
LineText(b, i, e) == IF e > i /\ b[e - 1] = CR THEN SubSeq(b, i, e - 2) ELSE SubSeq(b, i, e - 1)

Plain(s) == \A k \in 1..Len(s) : s[k] > 32 /\ s[k] # 127
NoCtl(s) == \A k \in 1..Len(s) : s[k] # 0 /\ s[k] # CR

\* ---------------------------------------------------------------- query strings and urlencoded bodies
Pair(seg) == LET e == IndexFrom(seg, 1, 61) IN
  IF e = 0 THEN [k |-> PctDec(seg), v |-> <<>>]
  ELSE [k |-> PctDec(SubSeq(seg, 1, e - 1)), v |-> PctDec(SubSeq(seg, e + 1, Len(seg)))]
EmptyPair(p) == p.k = <<>> /\ p.v = <<>>
DropEmpty(ps) == SelectSeq(ps, LAMBDA p : ~EmptyPair(p))
QueryOk(s) == (\A k \in 1..Len(s) : s[k] # 0) /\ \A i \in 1..Len(Split(s, 38)) : LET g == Split(s, 38)[i] IN
                LET e == IndexFrom(g, 1, 61) IN IF e = 0 THEN PctOk(g) ELSE PctOk(SubSeq(g, 1, e - 1)) /\ PctOk(SubSeq(g, e + 1, Len(g)))
Query(s) == LET ss == Split(s, 38) IN DropEmpty([i \in 1..Len(ss) |-> Pair(ss[i])])

\* ---------------------------------------------------------------- request line
\* t: text of the line
ReqLine(t) ==
  LET s1 == IndexFrom(t, 1, SP)
      s2 == IF s1 = 0 THEN 0 ELSE IndexFrom(t, s1 + 1, SP)
      mt == IF s1 = 0 THEN <<>> ELSE SubSeq(t, 1, s1 - 1)
      ut == IF s2 = 0 THEN <<>> ELSE SubSeq(t, s1 + 1, s2 - 1)
      vt == IF s2 = 0 THEN <<>> ELSE SubSeq(t, s2 + 1, Len(t))
      q  == IndexFrom(ut, 1, 63)
      pt == IF q = 0 THEN ut ELSE SubSeq(ut, 1, q - 1)
      qt == IF q = 0 THEN <<>> ELSE SubSeq(ut, q + 1, Len(ut))
  IN
  IF s1 <= 1 THEN Res(IF s1 = 0 /\ Len(t) >= TokenBad /\ Plain(t) THEN "bad" ELSE "any")
  ELSE IF ~Plain(mt) THEN Res("any")
  ELSE IF \A m \in Methods : MethodBytes[m] # mt THEN Res("bad")
  ELSE IF s2 = 0 THEN Res(IF Len(t) - s1 >= TokenBad /\ Plain(SubSeq(t, s1 + 1, Len(t))) THEN "bad" ELSE "any")
  ELSE IF Len(ut) >= TokenBad /\ Plain(ut) THEN Res("bad")
  ELSE IF Len(vt) >= TokenBad /\ Plain(vt) THEN Res("bad")
  ELSE IF ut = <<>> \/ ~Plain(ut) \/ Len(ut) > TokenOk \/ ut[1] # 47 THEN Res("any")
  ELSE IF vt # B("HTTP/1.1") /\ vt # B("HTTP/1.0") THEN Res("any")
  ELSE IF ~PctOk(pt) \/ (q # 0 /\ ~QueryOk(qt)) THEN Res("any")
  ELSE [Res("ready") EXCEPT !.m = CHOOSE m \in Methods : MethodBytes[m] = mt, !.v11 = (vt = B("HTTP/1.1")), !.url = ut,
        !.fp = PctDec(pt), !.get = IF q = 0 THEN <<>> ELSE Query(qt)]

\* an incomplete request line
PartialLine(t) ==
  LET s1 == IndexFrom(t, 1, SP) IN
  IF s1 = 0 THEN IF Len(t) >= TokenBad /\ Plain(t) THEN "bad" ELSE IF Len(t) <= TokenOk /\ Plain(t) THEN "need" ELSE "any"
  ELSE IF ~Plain(SubSeq(t, 1, s1 - 1)) \/ s1 = 1 THEN "any"
  ELSE IF \A m \in Methods : MethodBytes[m] # SubSeq(t, 1, s1 - 1) THEN "bad"
  ELSE LET s2 == IndexFrom(t, s1 + 1, SP)
           ut == SubSeq(t, s1 + 1, IF s2 = 0 THEN Len(t) ELSE s2 - 1) IN
       IF ~Plain(ut) THEN "any" ELSE IF Len(ut) >= TokenBad THEN "bad" ELSE IF Len(ut) > TokenOk THEN "any"
       ELSE IF s2 # 0 /\ ut = <<>> THEN "any"
       ELSE IF s2 = 0 THEN "need"
       ELSE LET vt == SubSeq(t, s2 + 1, Len(t)) IN
            IF Len(vt) >= TokenBad /\ Plain(vt) THEN "bad"
            ELSE IF At(B("HTTP/1.1") \o <<CR>>, 1, vt) \/ At(B("HTTP/1.0") \o <<CR>>, 1, vt) THEN "need" ELSE "any"

\* ---------------------------------------------------------------- headers
\* Reads header lines from i on.  Result: st (need, bad, any, ready), h, the position after the empty line
\* acc: headers so far, raw: size of the value being folded
NameOk(n) == n # <<>> /\ \A k \in 1..Len(n) : n[k] > 32 /\ n[k] < 127
RECURSIVE Headers(_, _, _, _)
Headers(b, i, acc, raw) ==
  LET e == LineEnd(b, i) IN
  IF e = 0 THEN
    LET t == SubSeq(b, i, Len(b)) c == IndexFrom(t, 1, 58) IN
    [h |-> acc, pos |-> 0, st |->
       IF t # <<>> /\ Blank(t[1]) THEN (IF NoCtl(SubSeq(t, 1, Len(t) - 1)) /\ raw + Len(t) <= ValueOk THEN "need" ELSE "any")
       ELSE IF c = 0 THEN IF Len(t) >= TokenBad /\ Plain(t) THEN "bad"
                          ELSE IF t = <<CR>> \/ t = <<>> THEN "need"
                          ELSE IF (Len(t) = 1 \/ NameOk(SubSeq(t, 1, Len(t) - 1))) /\ t[Len(t)] # 0 /\ Len(t) <= TokenOk THEN "need" ELSE "any"
       ELSE LET n == SubSeq(t, 1, c - 1) v == SubSeq(t, c + 1, Len(t)) IN
            IF Len(n) >= TokenBad /\ Plain(n) THEN "bad"
            ELSE IF NameOk(n) /\ Len(n) <= TokenOk /\ NoCtl(SubSeq(v, 1, Len(v) - 1)) /\ (v = <<>> \/ v[Len(v)] # 0) /\ Len(v) <= ValueOk THEN "need" ELSE "any"]
  ELSE LET t == LineText(b, i, e) IN
    IF t = <<>> THEN [h |-> acc, pos |-> e + 1, st |-> "ready"]
    ELSE IF Blank(t[1]) THEN
      IF acc = <<>> \/ ~NoCtl(t) \/ Trim(t) = <<>> \/ raw + Len(t) > ValueOk THEN [h |-> acc, pos |-> 0, st |-> "any"]
      ELSE LET last == acc[Len(acc)]
               joined == IF last.v = <<>> THEN Trim(t) ELSE last.v \o <<SP>> \o Trim(t)
           IN Headers(b, e + 1, [acc EXCEPT ![Len(acc)] = [k |-> last.k, v |-> joined]], raw + Len(t))
    ELSE LET c == IndexFrom(t, 1, 58) IN
      IF c = 0 THEN [h |-> acc, pos |-> 0, st |-> IF NoCtl(t) THEN "bad" ELSE "any"]
      ELSE LET n == SubSeq(t, 1, c - 1) v == SubSeq(t, c + 1, Len(t)) IN
        IF Len(n) >= TokenBad /\ Plain(n) THEN [h |-> acc, pos |-> 0, st |-> "bad"]
        ELSE IF ~NameOk(n) \/ Len(n) > TokenOk \/ ~NoCtl(v) \/ Len(v) > ValueOk THEN [h |-> acc, pos |-> 0, st |-> "any"]
        ELSE Headers(b, e + 1, Append(acc, [k |-> n, v |-> Trim(v)]), Len(v))

Values(h, name) == SelectSeq(h, LAMBDA x : IEq(x.k, name))
HdrVal(h, name) == LET v == Values(h, name) IN IF v = <<>> THEN <<>> ELSE v[1].v

\* ---------------------------------------------------------------- multipart bodies
BChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {39, 40, 41, 43, 95, 44, 45, 46, 47, 58, 61, 63}
\* boundary parameter of a content type: plain or quoted, possibly followed by other parameters
Boundary(ct) ==
  LET p == FindFrom(ct, 1, B("boundary=")) IN
  IF p = 0 THEN <<>> ELSE
  LET r == SubSeq(ct, p + 9, Len(ct)) IN
  IF r = <<>> THEN <<>>
  ELSE IF r[1] = 34 THEN LET q == IndexFrom(r, 2, 34) IN IF q = 0 THEN <<>> ELSE SubSeq(r, 2, q - 1)
  ELSE LET q == IndexFrom(r, 1, 59) IN TrimR(IF q = 0 THEN r ELSE SubSeq(r, 1, q - 1))
BoundaryOk(bd) == Len(bd) \in 1..70 /\ \A i \in 1..Len(bd) : BChar(bd[i])

\* a quoted parameter of a content disposition, <<found, value>>
Param(t, name) ==
  LET pat == B("; ") \o name \o <<61, 34>>
      p == FindFrom(t, 1, pat) IN
  IF p = 0 THEN <<FALSE, <<>>>>
  ELSE LET s == p + Len(pat) q == IndexFrom(t, s, 34) IN IF q = 0 THEN <<FALSE, <<>>>> ELSE <<TRUE, SubSeq(t, s, q - 1)>>
\* the exact forms accepted for a content disposition
DispOk(t) ==
  LET n == Param(t, B("name")) f == Param(t, B("filename")) IN
  /\ n[1] /\ NoCtl(t) /\ ~HasByte(t, 92)
  /\ n[2] # <<>>
  /\ \/ t = B("form-data; name=\"") \o n[2] \o <<34>>
     \/ f[1] /\ t = B("form-data; name=\"") \o n[2] \o B("\"; filename=\"") \o f[2] \o <<34>>

\* headers of one part, from i on: st, name, file, filename, position after the empty line
RECURSIVE PartHeaders(_, _, _)
PartHeaders(b, i, acc) ==
  LET e == LineEnd(b, i) IN
  IF e = 0 THEN [acc EXCEPT !.st = IF Len(b) - i < 4000 THEN "part" ELSE "any"]
  ELSE LET t == LineText(b, i, e) IN
    IF t = <<>> THEN [acc EXCEPT !.pos = e + 1, !.st = IF acc.named THEN "ok" ELSE "any"]
    ELSE LET c == IndexFrom(t, 1, 58) IN
      IF c <= 1 \/ Blank(t[1]) \/ Len(t) > 4000 \/ ~NoCtl(t) THEN [acc EXCEPT !.st = "any"]
      ELSE LET n == SubSeq(t, 1, c - 1) v == Trim(SubSeq(t, c + 1, Len(t))) IN
        IF IEq(n, B("Content-Disposition")) THEN
          IF acc.named \/ ~DispOk(v) THEN [acc EXCEPT !.st = "any"]
          ELSE PartHeaders(b, e + 1, [acc EXCEPT !.named = TRUE, !.name = Param(v, B("name"))[2], !.file = Param(v, B("filename"))[1],
                                                 !.filename = Param(v, B("filename"))[2]])
        ELSE PartHeaders(b, e + 1, acc)

NoPart == [st |-> "part", named |-> FALSE, name |-> <<>>, file |-> FALSE, filename |-> <<>>, pos |-> 0]
\* parts from i on; i is the position after a delimiter
RECURSIVE Parts(_, _, _, _)
Parts(b, i, delim, acc) ==
  IF At(b, i, <<45, 45>>) THEN [st |-> "ready", parts |-> acc, pos |-> i + 2]
  ELSE IF At(b, i, <<LF>>) \/ At(b, i, CRLF) THEN
    LET p == PartHeaders(b, IF b[i] = LF THEN i + 1 ELSE i + 2, NoPart) IN
    IF p.st = "part" THEN [st |-> "need", parts |-> acc, pos |-> 0]
    ELSE IF p.st = "any" THEN [st |-> "any", parts |-> acc, pos |-> 0]
    ELSE LET e == FindFrom(b, p.pos, CRLF \o delim)
             lf == FindFrom(b, p.pos, <<LF>> \o delim)
             \* the delimiter at the very beginning of the contents, where its line break is that of the empty line
             imm == At(b, p.pos, delim) IN
         IF imm \/ (lf # 0 /\ lf # e + 1) THEN [st |-> "any", parts |-> acc, pos |-> 0]
         ELSE IF e = 0 THEN [st |-> "need", parts |-> acc, pos |-> 0]
         ELSE LET v == SubSeq(b, p.pos, e - 1) IN
              IF ~p.file /\ HasByte(v, 0) THEN [st |-> "any", parts |-> acc, pos |-> 0]
              ELSE Parts(b, e + 2 + Len(delim), delim, Append(acc, [k |-> p.name, file |-> p.file, fn |-> p.filename, v |-> v]))
  ELSE [st |-> IF i > Len(b) \/ (i = Len(b) /\ b[i] \in {45, CR}) THEN "need" ELSE "any", parts |-> acc, pos |-> 0]

FileSum(ps) == SumSeq([i \in 1..Len(ps) |-> IF ps[i].file THEN Len(ps[i].v) ELSE 0])
ValueSum(ps) == SumSeq([i \in 1..Len(ps) |-> IF ps[i].file THEN 0 ELSE Len(ps[i].v)])
NameSum(ps) == SumSeq([i \in 1..Len(ps) |-> Len(ps[i].k) + Len(ps[i].fn) + 80])

Multipart(r, b, i, cl, bd, mp, mf) ==
  LET n == Len(b) - i + 1      \* body bytes received
      delim == <<45, 45>> \o bd
      wait == IF n <= mp /\ n <= mf THEN "need" ELSE "maybe" IN
  IF n < Len(delim) THEN Res(IF \A k \in 1..n : b[i + k - 1] = delim[k] THEN wait ELSE "any")
  ELSE IF ~At(b, i, delim) THEN Res("any")
  ELSE LET p == Parts(b, i + Len(delim), delim, <<>>) IN
    IF p.st = "any" THEN Res("any")
    ELSE IF p.st = "need" THEN Res(IF n >= cl THEN "any" ELSE wait)
    ELSE IF p.parts = <<>> THEN Res("any")
    ELSE IF p.pos # i + cl /\ ~(p.pos = i + cl - 2 /\ At(b, p.pos, CRLF)) /\ p.pos # i + cl - 2 /\ p.pos # i + cl - 1 THEN Res("any")
    ELSE IF p.pos + 1 = i + cl /\ p.pos <= Len(b) /\ b[p.pos] # CR THEN Res("any")
    ELSE IF p.pos = i + cl - 2 /\ p.pos <= Len(b) /\ ~(b[p.pos] = CR /\ (p.pos = Len(b) \/ b[p.pos + 1] = LF)) THEN Res("any")
    ELSE IF FileSum(p.parts) > mf \/ ValueSum(p.parts) > mp THEN Res("bad")
    ELSE IF cl > mp /\ ValueSum(p.parts) + NameSum(p.parts) > mp THEN Res("any")
    ELSE [r EXCEPT !.st = "ready", !.used = p.pos - 1, !.kind = "multipart",
            !.post = [k \in 1..Len(p.parts) |-> [k |-> p.parts[k].k, v |-> IF p.parts[k].file THEN p.parts[k].fn ELSE p.parts[k].v]],
            !.files = LET fs == SelectSeq(p.parts, LAMBDA x : x.file) IN [k \in 1..Len(fs) |-> [k |-> fs[k].k, v |-> fs[k].v]]]

\* ---------------------------------------------------------------- the whole request
\* empty lines before the request line are ignored
RECURSIVE SkipEmpty(_, _)
SkipEmpty(b, i) == IF At(b, i, <<LF>>) THEN SkipEmpty(b, i + 1) ELSE IF At(b, i, CRLF) THEN SkipEmpty(b, i + 2) ELSE i

Odd(h) == \/ Values(h, B("Transfer-Encoding")) # <<>>
          \/ Len(Values(h, B("Content-Length"))) > 1
          \/ Len(Values(h, B("Content-Type"))) > 1
          \/ LET v == Values(h, B("Content-Length")) IN v # <<>> /\ (~AllDigits(v[1].v) \/ Len(v[1].v) > 18)

ParseReq(b, mp, mf) ==
  LET i0 == SkipEmpty(b, 1) e == LineEnd(b, i0) IN
  IF i0 > Len(b) THEN Res("need")
  ELSE IF i0 = Len(b) /\ b[i0] = CR THEN Res("need")
  ELSE IF e = 0 THEN Res(PartialLine(SubSeq(b, i0, Len(b))))
  ELSE LET r0 == ReqLine(LineText(b, i0, e)) IN
  IF r0.st # "ready" THEN r0
  ELSE LET hh == Headers(b, e + 1, <<>>, 0) IN
  IF hh.st # "ready" THEN Res(hh.st)
  ELSE IF Odd(hh.h) THEN Res("any")
  ELSE
  LET r   == [r0 EXCEPT !.h = hh.h]
      i   == hh.pos                                     \* start of the body
      n   == Len(b) - i + 1
      cls == Values(hh.h, B("Content-Length"))
      hascl == cls # <<>>
      cl  == IF hascl THEN Dec(cls[1].v) ELSE 0
      ct  == HdrVal(hh.h, B("Content-Type"))
      url == Has(ct, B("application/x-www-form-urlencoded"))
      mpt == Has(ct, B("boundary"))
  IN
  IF r.m = "POST" /\ (url \/ mpt) THEN
    IF ~hascl THEN Res("bad")
    ELSE IF cl = 0 THEN [r EXCEPT !.used = i - 1]
    ELSE IF url THEN
      IF cl > mp THEN Res("bad")
      ELSE IF n < cl THEN Res("need")
      ELSE LET body == SubSeq(b, i, i + cl - 1) IN
           IF ~QueryOk(body) THEN Res("any")
           ELSE [r EXCEPT !.used = i + cl - 1, !.kind = "form", !.post = Query(body)]
    ELSE LET bd == Boundary(ct) IN
         IF ~BoundaryOk(bd) THEN Res("any") ELSE Multipart(r, b, i, cl, bd, mp, mf)
  ELSE IF r.m = "PUT" THEN
    IF ~hascl \/ cl > mf THEN Res("bad")
    ELSE IF n < cl THEN Res("need")
    ELSE [r EXCEPT !.used = i + cl - 1, !.kind = "put", !.data = SubSeq(b, i, i + cl - 1)]
  ELSE IF cl > mp THEN Res("bad")
  ELSE IF n < cl THEN Res("need")
  ELSE [r EXCEPT !.used = i + cl - 1, !.kind = IF cl > 0 THEN "data" ELSE "none", !.data = SubSeq(b, i, i + cl - 1)]

\* ---------------------------------------------------------------- what a handler may see
\* dictionaries list keys in order; entries of the same key keep their order
SameDict(got, want, eq(_, _)) ==
  /\ Len(got) = Len(want)
  /\ \A i \in 1..Len(want) :
       LET g == SelectSeq(got, LAMBDA x : eq(x.k, want[i].k)) w == SelectSeq(want, LAMBDA x : eq(x.k, want[i].k)) IN
       g = w
Exact(a, b) == a = b
\* header values are compared up to blanks around them and, where lines were folded, up to the blanks at the fold
RECURSIVE Squeeze(_)
Squeeze(s) == \* a run of blanks becomes one space
  IF Len(s) < 2 THEN s
  ELSE IF Blank(s[1]) /\ Blank(s[2]) THEN Squeeze(<<SP>> \o SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o Squeeze(Tail(s))
HasBlanks(s) == \E i \in 1..(Len(s) - 1) : Blank(s[i]) /\ Blank(s[i + 1])
NormV(s) == LET t == Trim(s) IN IF HasBlanks(t) THEN Squeeze(t) ELSE t
NormH(h) == [i \in 1..Len(h) |-> [k |-> h[i].k, v |-> NormV(h[i].v)]]
NoPlus(s) == [i \in 1..Len(s) |-> IF s[i] = 43 THEN SP ELSE s[i]]

SeenRight(ev, r) ==
  /\ ev.m = r.m
  /\ ev.v11 = r.v11
  /\ NoPlus(ev.fp) = NoPlus(r.fp)
  /\ NoPlus(ev.path) = NoPlus(Tail(r.fp))
  /\ SameDict(DropEmpty(ev.get), r.get, Exact)
  /\ SameDict(NormH(ev.h), NormH(r.h), IEq)
  /\ SameDict(DropEmpty(ev.post), r.post, Exact)
  /\ IF r.kind = "put" THEN ev.putok /\ ev.data = r.data
     ELSE /\ \A i \in 1..Len(ev.files) : ev.files[i].ok
          /\ SameDict([i \in 1..Len(ev.files) |-> [k |-> ev.files[i].k, v |-> ev.files[i].v]], r.files, Exact)
          /\ ev.data = r.data
          /\ ev.hasdata => r.kind = "data" \/ Values(r.h, B("Content-Length")) # <<>>
=============================================================================
