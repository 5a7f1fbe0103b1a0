------------------------------ MODULE RespMC ------------------------------
(* A client recovers the body from any of the framings: every body over a small alphabet, cut into     *)
(* chunks in every way, followed or not by the next response; every proper prefix is recognised as      *)
(* incomplete (unless delimited by the end of the connection) and delivers a prefix of the body.        *)
EXTENDS HttpResp
VARIABLES body, cuts, framing, n
Alphabet == {97, 13, 10, 48}
Bodies == UNION {[1..k -> Alphabet] : k \in 0..3} \union {[i \in 1..17 |-> 97]}
RECURSIVE Enc(_, _)
Enc(b, cs) == IF b = <<>> THEN B("0") \o CRLF \o CRLF
              ELSE LET k == IF cs = <<>> THEN Len(b) ELSE Min2(Head(cs), Len(b)) IN
                   HexBytes(k) \o CRLF \o SubSeq(b, 1, k) \o CRLF \o Enc(SubSeq(b, k + 1, Len(b)), IF cs = <<>> THEN <<>> ELSE Tail(cs))
Hd(f) == B("HTTP/1.1 200 OK") \o CRLF \o B("X: y") \o CRLF \o f \o CRLF
Wire == CASE framing = "chunk" -> Hd(B("Transfer-Encoding: chunked") \o CRLF) \o Enc(body, cuts)
          [] framing = "len" -> Hd(B("Content-Length: ") \o DecBytes(Len(body)) \o CRLF) \o body
          [] framing = "close" -> Hd(<<>>) \o body
Init == body \in Bodies /\ framing \in {"chunk", "len", "close"} /\ cuts \in (IF framing = "chunk" THEN {<<>>, <<1>>, <<1, 1>>, <<2>>, <<16, 1>>} ELSE {<<>>}) /\ n = 12
Next == n < Len(Wire) /\ n' = n + 1 /\ UNCHANGED <<body, cuts, framing>>
Spec == Init /\ [][Next]_<<body, cuts, framing, n>>
Recovers ==
  LET o == SubSeq(Wire, 1, n) p == ParseResp(o, FALSE) hd == RespHead(o) IN
  IF n >= Len(Wire) THEN /\ p.ok /\ p.body = body /\ p.rest = <<>> /\ p.framing = framing /\ p.code = 200
                        /\ framing # "close" => LET p2 == ParseResp(Wire \o B("HTTP/1.1 200"), FALSE) IN p2.ok /\ p2.body = body /\ p2.rest = B("HTTP/1.1 200")
  ELSE /\ framing # "close" => ~p.ok
       /\ hd.ok => LET d == Delivered(o, hd) IN d.ok /\ Len(d.body) <= Len(body) /\ d.body = SubSeq(body, 1, Len(d.body))
=============================================================================
