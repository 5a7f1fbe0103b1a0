------------------------------ MODULE HttpResp ------------------------------
(* How a client reads the bytes of a response.                             *)
EXTENDS Bytes

LOCAL BadResp == [ok |-> FALSE, code |-> 0, v11 |-> FALSE, h |-> <<>>, start |-> 0]
RECURSIVE RHeaders(_, _, _)
RHeaders(o, i, acc) ==
  LET e == FindFrom(o, i, CRLF) IN
  IF e = 0 THEN [ok |-> FALSE, h |-> acc, pos |-> 0]
  ELSE IF e = i THEN [ok |-> TRUE, h |-> acc, pos |-> e + 2]
  ELSE LET t == SubSeq(o, i, e - 1) c == IndexFrom(t, 1, 58) IN
       IF c <= 1 \/ HasByte(t, LF) \/ HasByte(t, CR) \/ HasByte(t, 0) \/ \E k \in 1..(c - 1) : t[k] <= 32 THEN [ok |-> FALSE, h |-> acc, pos |-> 0]
       ELSE RHeaders(o, e + 2, Append(acc, [k |-> SubSeq(t, 1, c - 1), v |-> Trim(SubSeq(t, c + 1, Len(t)))]))
\* status line and headers
RespHead(o) ==
  LET e == FindFrom(o, 1, CRLF) IN
  IF e < 13 \/ ~(StartsWith(o, B("HTTP/1.1 ")) \/ StartsWith(o, B("HTTP/1.0 "))) THEN BadResp
  ELSE IF ~AllDigits(SubSeq(o, 10, 12)) \/ o[13] # SP THEN BadResp
  ELSE LET h == RHeaders(o, e + 2, <<>>) IN
       IF ~h.ok THEN BadResp
       ELSE [ok |-> TRUE, code |-> Dec(SubSeq(o, 10, 12)), v11 |-> o[8] = 49, h |-> h.h, start |-> h.pos]

RVals(h, n) == LET s == SelectSeq(h, LAMBDA x : IEq(x.k, n)) IN [i \in 1..Len(s) |-> s[i].v]

\* chunked coding from i on: [ok, body, pos after the last chunk]
RECURSIVE Chunks(_, _, _)
Chunks(o, i, acc) ==
  LET e == IF i > Len(o) THEN 0 ELSE FindFrom(o, i, CRLF) IN
  IF e = 0 \/ e = i \/ e - i > 7 THEN [ok |-> FALSE, body |-> acc, pos |-> i]
  ELSE LET t == SubSeq(o, i, e - 1) IN
  IF \E k \in 1..Len(t) : ~HexDigit(t[k]) THEN [ok |-> FALSE, body |-> acc, pos |-> i]
  ELSE LET n == HexVal_(t, Len(t)) IN
  IF n = 0 THEN IF At(o, e + 2, CRLF) THEN [ok |-> TRUE, body |-> acc, pos |-> e + 4] ELSE [ok |-> FALSE, body |-> acc, pos |-> i]
  ELSE IF ~At(o, e + 2 + n, CRLF) THEN [ok |-> FALSE, body |-> acc, pos |-> i]
  ELSE Chunks(o, e + 4 + n, acc \o SubSeq(o, e + 2, e + 1 + n))

NoBodyCode(c) == c \in 100..199 \/ c = 204 \/ c = 304
\* The response in o to a request with or without the HEAD method.
\* framing: none (no body allowed), len, chunk, close; rest: bytes that follow the response
ParseResp(o, head) ==
  LET hd == RespHead(o)
      te == RVals(hd.h, B("Transfer-Encoding"))
      cl == RVals(hd.h, B("Content-Length"))
      after == IF hd.ok THEN SubSeq(o, hd.start, Len(o)) ELSE <<>>
      R(ok, f, body, rest) == [ok |-> ok, code |-> hd.code, v11 |-> hd.v11, h |-> hd.h, framing |-> f, body |-> body, rest |-> rest, after |-> after,
                               cl |-> IF Len(cl) = 1 /\ AllDigits(cl[1]) THEN Dec(cl[1]) ELSE -1]
  IN
  IF ~hd.ok THEN R(FALSE, "bad", <<>>, <<>>)
  ELSE IF Len(cl) > 1 \/ (cl # <<>> /\ ~AllDigits(cl[1])) \/ Len(te) > 1 \/ (te # <<>> /\ ~IEq(te[1], B("chunked"))) \/ (te # <<>> /\ cl # <<>>)
       THEN R(FALSE, "bad", <<>>, <<>>)
  ELSE IF head \/ NoBodyCode(hd.code) THEN R(TRUE, "none", <<>>, after)
  ELSE IF te # <<>> THEN LET k == Chunks(o, hd.start, <<>>) IN R(k.ok, "chunk", k.body, IF k.ok THEN SubSeq(o, k.pos, Len(o)) ELSE <<>>)
  ELSE IF cl # <<>> THEN LET n == Dec(cl[1]) IN R(n <= Len(after), "len", SubSeq(after, 1, Min2(n, Len(after))), SubSeq(after, n + 1, Len(after)))
  ELSE R(TRUE, "close", after, <<>>)

\* Body bytes that can be told from the beginning o of a response (head hd complete), the last chunk
\* possibly incomplete
RECURSIVE ChunksSoFar(_, _, _)
ChunksSoFar(o, i, acc) ==
  IF i > Len(o) THEN [ok |-> TRUE, body |-> acc]
  ELSE LET e == FindFrom(o, i, CRLF) IN
  IF e = 0 THEN [ok |-> Len(o) - i < 8 /\ \A k \in i..Len(o) : HexDigit(o[k]) \/ (o[k] = CR /\ k = Len(o) /\ k > i), body |-> acc]
  ELSE LET t == SubSeq(o, i, e - 1) IN
  IF t = <<>> \/ Len(t) > 7 \/ \E k \in 1..Len(t) : ~HexDigit(t[k]) THEN [ok |-> FALSE, body |-> acc]
  ELSE LET n == HexVal_(t, Len(t)) IN
  IF n = 0 THEN [ok |-> Len(o) <= e + 3 /\ At(CRLF, 1, SubSeq(o, e + 2, Len(o))), body |-> acc]
  ELSE IF Len(o) <= e + 1 + n THEN [ok |-> TRUE, body |-> acc \o SubSeq(o, e + 2, Len(o))]
  ELSE IF ~At(CRLF, 1, SubSeq(o, e + 2 + n, Min2(Len(o), e + 3 + n))) THEN [ok |-> FALSE, body |-> acc]
  ELSE ChunksSoFar(o, e + 4 + n, acc \o SubSeq(o, e + 2, e + 1 + n))
Delivered(o, hd) ==
  IF \E i \in 1..Len(RVals(hd.h, B("Transfer-Encoding"))) : IEq(RVals(hd.h, B("Transfer-Encoding"))[i], B("chunked")) THEN ChunksSoFar(o, hd.start, <<>>)
  ELSE [ok |-> TRUE, body |-> SubSeq(o, hd.start, Len(o))]

RECURSIVE EncChunks(_, _)
HexCh(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE HexBytes(_)
HexBytes(n) == IF n < 16 THEN <<HexCh(n)>> ELSE Append(HexBytes(n \div 16), HexCh(n % 16))
\* cut: sizes of the chunks
EncChunks(body, cut) == IF body = <<>> THEN B("0") \o CRLF \o CRLF
                        ELSE LET n == Min2(cut, Len(body)) IN HexBytes(n) \o CRLF \o SubSeq(body, 1, n) \o CRLF \o EncChunks(SubSeq(body, n + 1, Len(body)), cut)
=============================================================================
