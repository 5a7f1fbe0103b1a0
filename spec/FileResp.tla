------------------------------ MODULE FileResp ------------------------------
(* How a file is sent: whole, in part, or not at all because the client has it already.             *)
EXTENDS Fs, HttpReq, HttpResp

\* bodies are sequences of runs: [f |-> file id, o |-> offset, n |-> length], or [f |-> -1, b |-> bytes]
RunLen(r) == IF r.f = -1 THEN Len(r.b) ELSE r.n
RECURSIVE BodyLen(_)
BodyLen(b) == IF b = <<>> THEN 0 ELSE RunLen(Head(b)) + BodyLen(Tail(b))
RECURSIVE BodyIs(_, _, _, _)
\* body b is n bytes of file id from offset a
BodyIs(b, id, a, n) ==
  IF b = <<>> THEN n = 0
  ELSE LET r == Head(b) k == RunLen(r) IN
       /\ k <= n
       /\ IF r.f = -1 THEN r.b = FileBytes(id, a, k) ELSE r.f = id /\ r.o = a
       /\ BodyIs(Tail(b), id, a + k, n - k)
Literal(b) == Concat([i \in 1..Len(b) |-> IF b[i].f = -1 THEN b[i].b ELSE <<-1>>])

NoRange == [k |-> "none", a |-> 0, b |-> 0]
\* what the Range header asks for, for a file of n bytes: none | part a..b | unsat | odd (several ranges, malformed)
RangeOf(q, n) ==
  LET vs == Values(q.h, B("Range")) IN
  IF vs = <<>> THEN NoRange
  ELSE IF Len(vs) > 1 THEN [NoRange EXCEPT !.k = "odd"]
  ELSE LET v == Trim(vs[1].v) IN
  IF ~StartsWith(v, B("bytes=")) THEN NoRange
  ELSE LET s == SubSeq(v, 7, Len(v)) d == IndexFrom(s, 1, 45) IN
  IF d = 0 THEN [NoRange EXCEPT !.k = "odd"]
  ELSE LET x == SubSeq(s, 1, d - 1) y == SubSeq(s, d + 1, Len(s)) IN
  IF (x # <<>> /\ ~AllDigits(x)) \/ (y # <<>> /\ ~AllDigits(y)) \/ (x = <<>> /\ y = <<>>) THEN [NoRange EXCEPT !.k = "odd"]
  ELSE IF x = <<>> THEN IF Dec(y) = 0 \/ n = 0 THEN [NoRange EXCEPT !.k = "unsat"] ELSE [k |-> "part", a |-> Max2(0, n - Dec(y)), b |-> n - 1]
  ELSE IF y # <<>> /\ Dec(x) > Dec(y) THEN [NoRange EXCEPT !.k = "odd"]
  ELSE IF Dec(x) >= n THEN [NoRange EXCEPT !.k = "unsat"]
  ELSE [k |-> "part", a |-> Dec(x), b |-> IF y = <<>> THEN n - 1 ELSE Min2(Dec(y), n - 1)]

Hdr1(h, n) == LET v == RVals(h, n) IN IF Len(v) = 1 THEN v[1] ELSE <<>>
CR1(a, b, n) == B("bytes ") \o DecBytes(a) \o <<45>> \o DecBytes(b) \o <<47>> \o DecBytes(n)

\* the answer r = [head |-> parsed head, body |-> runs, complete] to request q is the file nd
Whole(q, hd, body, nd) ==
  /\ hd.code = 200 /\ RVals(hd.h, B("Content-Range")) = <<>>
  /\ Hdr1(hd.h, B("Content-Length")) = DecBytes(nd.size)
  /\ IF q.m = "HEAD" THEN body = <<>> ELSE BodyIs(body, nd.id, 0, nd.size)
Part(q, hd, body, nd, a, b) ==
  /\ hd.code = 206 /\ Hdr1(hd.h, B("Content-Range")) = CR1(a, b, nd.size)
  /\ Hdr1(hd.h, B("Content-Length")) = DecBytes(b - a + 1)
  /\ IF q.m = "HEAD" THEN body = <<>> ELSE BodyIs(body, nd.id, a, b - a + 1)
\* some part, told by the Content-Range
SomePart(q, hd, body, nd) ==
  LET v == Hdr1(hd.h, B("Content-Range")) s == IF Len(v) > 6 THEN SubSeq(v, 7, Len(v)) ELSE <<>> d == IndexFrom(s, 1, 45) e == IndexFrom(s, 1, 47) IN
  /\ d > 1 /\ e > d + 1 /\ AllDigits(SubSeq(s, 1, d - 1)) /\ AllDigits(SubSeq(s, d + 1, e - 1))
  /\ Dec(SubSeq(s, 1, d - 1)) <= Dec(SubSeq(s, d + 1, e - 1)) /\ Dec(SubSeq(s, d + 1, e - 1)) < nd.size
  /\ Part(q, hd, body, nd, Dec(SubSeq(s, 1, d - 1)), Dec(SubSeq(s, d + 1, e - 1)))
\* no byte of a file longer than a line is in there
NoFile(body) == \A i \in 1..Len(body) : body[i].f = -1
Refused(hd, body) == hd.code >= 400 /\ NoFile(body) /\ BodyLen(body) < 200
Unsat(q, hd, body, nd) == hd.code = 416 /\ body \in {<<>>, <<[f |-> -1, b |-> B("0") \o CRLF \o CRLF]>>} /\ Hdr1(hd.h, B("Content-Range")) = B("bytes */") \o DecBytes(nd.size)
Etag(hd) == Hdr1(hd.h, B("Etag"))
Inm(q) == LET v == Values(q.h, B("If-None-Match")) IN [i \in 1..Len(v) |-> Trim(v[i].v)]
NotMod(q, hd, body) == hd.code = 304 /\ body = <<>> /\ RVals(hd.h, B("Content-Length")) \in {<<>>, <<B("0")>>} /\ Etag(hd) # <<>> /\ \E i \in 1..Len(Inm(q)) : Has(Inm(q)[i], Etag(hd))
FileOk(q, hd, body, nd) ==
  /\ hd.ok
  /\ LET g == RangeOf(q, nd.size) IN
     \/ NotMod(q, hd, body)
     \/ /\ ~(Etag(hd) # <<>> /\ Inm(q) = <<Etag(hd)>> /\ hd.code # 416)   \* it has it: nothing is sent
        /\ CASE g.k = "none" -> Whole(q, hd, body, nd)
             [] g.k = "part" -> Part(q, hd, body, nd, g.a, g.b)
             [] g.k = "unsat" -> Unsat(q, hd, body, nd) \/ (nd.size = 0 /\ Whole(q, hd, body, nd))
             [] g.k = "odd" -> Whole(q, hd, body, nd) \/ SomePart(q, hd, body, nd) \/ Refused(hd, body) \/ Unsat(q, hd, body, nd)
\* type by the name after the last dot
ExtOf(n) == IF \E i \in 1..Len(n) : n[i] = 46 THEN LET i == CHOOSE i \in 1..Len(n) : n[i] = 46 /\ \A k \in (i + 1)..Len(n) : n[k] # 46 IN SubSeq(n, i + 1, Len(n)) ELSE n
TypesOf(mime, n) == LET m == {x \in mime : x.k = ExtOf(n)} IN IF m = {} \/ ~HasByte(n, 46) THEN {B("text/plain")} ELSE {x.v : x \in m}
TypeOk(hd, mime, n) == hd.code \in {200, 206} => Hdr1(hd.h, B("Content-Type")) \in TypesOf(mime, n)
\* the table of types, a text of lines "type ext ext" with comments
Words(s) == LET w == [i \in 1..Len(s) |-> IF s[i] \in {9, 13} THEN 32 ELSE s[i]] IN SelectSeq(Split(w, 32), LAMBDA x : x # <<>>)
Uncomment(s) == LET i == IndexFrom(s, 1, 35) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
MimeLine(s) == LET w == Words(Uncomment(s)) IN {[k |-> w[i], v |-> w[1]] : i \in 2..Len(w)}
MimeParse(t) == UNION {MimeLine(Split(t, 10)[i]) : i \in 1..Len(Split(t, 10))}
MimeFew == {[k |-> B("html"), v |-> B("text/html")], [k |-> B("htm"), v |-> B("text/html")], [k |-> B("js"), v |-> B("application/javascript")],
  [k |-> B("mjs"), v |-> B("application/javascript")], [k |-> B("css"), v |-> B("text/css")], [k |-> B("png"), v |-> B("image/png")], [k |-> B("jpg"), v |-> B("image/jpeg")]}
=============================================================================
