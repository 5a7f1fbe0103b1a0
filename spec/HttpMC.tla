------------------------------ MODULE HttpMC ------------------------------
(* Reading is the inverse of writing, whatever the segmentation: over a finite family of requests     *)
(* in structured form, every proper prefix of the encoding asks for more, the whole encoding is        *)
(* recognised as exactly that request, and bytes that follow are left for the next request.            *)
EXTENDS HttpReq
CONSTANTS BK    \* body kinds
VARIABLES q, n

Heads == {<<>>, <<[k |-> B("Host"), v |-> B("h")]>>, <<[k |-> B("X"), v |-> <<>>], [k |-> B("x"), v |-> B("a:b")]>>, <<[k |-> B("F"), v |-> B("p q"), fold |-> TRUE]>>}
Paths == {[raw |-> B("/"), dec |-> B("/")], [raw |-> B("/%41+%2f"), dec |-> B("/A /")]}
Queries == {[raw |-> <<>>, dec |-> <<>>], [raw |-> B("?a=1&b&a=%262"), dec |-> <<[k |-> B("a"), v |-> B("1")], [k |-> B("b"), v |-> <<>>], [k |-> B("a"), v |-> B("&2")]>>]}
None == [k |-> "none"]
Val == {<<>>, B("v"), <<13, 10>>, <<13, 10, 45, 45>>, <<10, 45, 45, 89>>, <<13, 13, 10>>}
Bodies == {None} \union {[k |-> "form", raw |-> B("x=1&y=%20"), dec |-> <<[k |-> B("x"), v |-> B("1")], [k |-> B("y"), v |-> B(" ")]>>]}
          \union {[k |-> "data", raw |-> v] : v \in Val \ {<<>>}} \union {[k |-> "put", raw |-> v] : v \in Val}
          \union {[k |-> "mp", v1 |-> v, v2 |-> w] : v \in Val, w \in Val}
Reqs == [m : {"GET", "POST", "PUT"}, v11 : BOOLEAN, p : Paths, u : Queries, h : Heads, b : Bodies, lf : BOOLEAN]
Sane(r) == /\ r.b.k \in BK
           /\ r.b.k = "none" => r.m # "PUT"
           /\ r.b.k \in {"form", "mp"} => r.m = "POST"
           /\ r.b.k = "put" <=> r.m = "PUT"
           \* keep the product small: not every dimension with every other
           /\ r.b.k = "mp" => r.v11 /\ r.u.raw = <<>> /\ r.h = <<>> /\ r.p.raw = B("/")
           /\ r.b.k \in {"data", "put"} => r.v11 /\ r.p.raw = B("/") /\ r.u.raw = <<>>

E(r) == IF r.lf THEN <<LF>> ELSE CRLF
Part(name, file, v) == B("--XY") \o CRLF \o B("Content-Disposition: form-data; name=\"") \o name \o <<34>>
                       \o (IF file THEN B("; filename=\"f\"") ELSE <<>>) \o CRLF \o CRLF \o v \o CRLF
MpBody(r) == Part(B("a"), FALSE, r.b.v1) \o Part(B("b"), TRUE, r.b.v2) \o B("--XY--")
Body(r) == CASE r.b.k = "none" -> <<>> [] r.b.k = "mp" -> MpBody(r) [] OTHER -> r.b.raw
EncH(r, h) == h.k \o B(": ") \o (IF "fold" \in DOMAIN h THEN LET s == IndexFrom(h.v, 1, SP) IN SubSeq(h.v, 1, s - 1) \o E(r) \o <<TAB>> \o SubSeq(h.v, s + 1, Len(h.v)) ELSE h.v) \o E(r)
Extra(r) == CASE r.b.k = "none" -> <<>>
              [] r.b.k = "form" -> B("Content-Type: application/x-www-form-urlencoded") \o E(r)
              [] r.b.k = "mp" -> B("Content-Type: multipart/form-data; boundary=XY") \o E(r)
              [] OTHER -> <<>>
Cl(r) == IF r.b.k = "none" THEN <<>> ELSE B("Content-Length: ") \o DecBytes(Len(Body(r))) \o E(r)
Encode(r) == B(r.m) \o <<SP>> \o r.p.raw \o r.u.raw \o <<SP>> \o B(IF r.v11 THEN "HTTP/1.1" ELSE "HTTP/1.0") \o E(r)
             \o Concat([i \in 1..Len(r.h) |-> EncH(r, r.h[i])]) \o Extra(r) \o Cl(r) \o E(r) \o Body(r)

Init == q \in {r \in Reqs : Sane(r)} /\ n = 0
Next == n < Len(Encode(q)) /\ n' = n + 1 /\ UNCHANGED q
Spec == Init /\ [][Next]_<<q, n>>

Plain2(h) == [i \in 1..Len(h) |-> [k |-> h[i].k, v |-> h[i].v]]
Right(p, r) ==
  /\ p.st = "ready" /\ p.m = r.m /\ p.v11 = r.v11 /\ p.fp = r.p.dec /\ p.get = r.u.dec /\ p.used = Len(Encode(r))
  /\ SubSeq(p.h, 1, Len(r.h)) = Plain2(r.h)
  /\ r.b.k = "form" => p.post = r.b.dec
  /\ r.b.k \in {"data", "put"} => p.data = r.b.raw
  /\ r.b.k = "mp" => p.post = <<[k |-> B("a"), v |-> r.b.v1], [k |-> B("b"), v |-> B("f")]>> /\ p.files = <<[k |-> B("b"), v |-> r.b.v2]>>
Roundtrip ==
  LET e == Encode(q) p == ParseReq(SubSeq(e, 1, n), 1000, 1000) IN
  IF n < Len(e) THEN p.st \in {"need", "maybe"}
  ELSE /\ Right(p, q) /\ Right(ParseReq(e \o B("GET / HT"), 1000, 1000), q)
       /\ LET s == ParseReq(CRLF \o e, 1000, 1000) IN s.st = "ready" /\ s.used = Len(e) + 2 /\ s.m = q.m
\* limits refuse: too small a limit for the body makes it bad
Limits == n = Len(Encode(q)) /\ Len(Body(q)) > 1 =>
            /\ q.b.k \in {"form", "data"} => ParseReq(Encode(q), Len(Body(q)) - 1, 1000).st = "bad"
            /\ q.b.k = "put" => ParseReq(Encode(q), 1000, Len(Body(q)) - 1).st = "bad"
            /\ q.b.k = "mp" /\ q.b.v2 # <<>> => ParseReq(Encode(q), 1000, Len(q.b.v2) - 1).st = "bad"
=============================================================================
