-------------------------------- MODULE Codec --------------------------------
(* What encoded texts denote.  Encoders are judged by decoding what they wrote with the definitions here.  *)
EXTENDS Bytes
Ws == {10, 13, 32}
NoWs(t) == SelectSeq(t, LAMBDA c : c \notin Ws)
Upto0(s) == LET i == IndexFrom(s, 1, 0) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
---- \* base64
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Eq == 61
\* number of = at the end, 0..2
Pad(u) == IF Len(u) >= 2 /\ u[Len(u)] = Eq THEN (IF u[Len(u) - 1] = Eq THEN 2 ELSE 1) ELSE 0
B64Valid(u) == u # <<>> /\ Len(u) % 4 = 0 /\ \A i \in 1..(Len(u) - Pad(u)) : B64Val(u[i]) >= 0
B64V(u, i) == IF u[i] = Eq THEN 0 ELSE B64Val(u[i])
B64Len(u) == ((Len(u) \div 4) * 3) - Pad(u)
B64Byte(u, k) ==   \* k from 0
  LET g == (k \div 3) * 4 a == B64V(u, g + 1) b == B64V(u, g + 2) c == B64V(u, g + 3) d == B64V(u, g + 4) IN
  CASE k % 3 = 0 -> (a * 4) + (b \div 16)
    [] k % 3 = 1 -> ((b % 16) * 16) + (c \div 4)
    [] OTHER -> ((c % 4) * 64) + d
B64Dec(u) == [k \in 1..B64Len(u) |-> B64Byte(u, k - 1)]
Chr64(v) == IF v < 26 THEN v + 65 ELSE IF v < 52 THEN v + 71 ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
B64Char(s, k) == \* k-th character (from 0) of the encoding
  LET g == (k \div 4) * 3 x(i) == IF g + i <= Len(s) THEN s[g + i] ELSE 0 IN
  CASE k % 4 = 0 -> Chr64(x(1) \div 4)
    [] k % 4 = 1 -> Chr64(((x(1) % 4) * 16) + (x(2) \div 16))
    [] k % 4 = 2 -> IF g + 2 > Len(s) THEN Eq ELSE Chr64(((x(2) % 16) * 4) + (x(3) \div 64))
    [] OTHER -> IF g + 3 > Len(s) THEN Eq ELSE Chr64(x(3) % 64)
B64Enc(s) == [k \in 1..(((Len(s) + 2) \div 3) * 4) |-> B64Char(s, k - 1)]
B64EncOk(s, t) == NoWs(t) = B64Enc(s) /\ \A ln \in {Split(t, 10)[i] : i \in 1..Len(Split(t, 10))} : Len(ln) <= 77
B64DecOk(t, null, out) ==
  LET u == NoWs(t) IN
  IF B64Valid(u) THEN ~null /\ out = B64Dec(u)
  ELSE IF u = <<>> THEN null \/ out = <<>>
  ELSE null
---- \* percent
Unreserved(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 46, 95, 126}
QuoteOk(s, t) == /\ PctOk(t) /\ PctDec(t) = s
                 /\ \A i \in 1..Len(t) : Unreserved(t[i]) \/ t[i] = 37
QuoteLen(s) == SumSeq([i \in 1..Len(s) |-> IF (s[i] \in 48..57 \/ s[i] \in 65..90 \/ s[i] \in 97..122) THEN 1 ELSE 3])
\* in a buffer of n bytes: the end is missing only when it does not fit
QuoteMaxOk(s, n, t, r) == /\ r = Len(t) /\ Len(t) < n
                          /\ \E k \in 0..Len(s) : QuoteOk(SubSeq(s, 1, k), t) /\ (k < Len(s) => Len(t) + 3 >= n)
UnquoteOk(s, t) == PctOk(s) => t = Upto0(PctDec(s))
---- \* HTML
Ents == << [e |-> B("&lt;"), c |-> 60], [e |-> B("&gt;"), c |-> 62], [e |-> B("&amp;"), c |-> 38], [e |-> B("&quot;"), c |-> 34], [e |-> B("&#39;"), c |-> 39], [e |-> B("&apos;"), c |-> 39], [e |-> B("&#x27;"), c |-> 39], [e |-> B("&#34;"), c |-> 34] >>
HtmlSpecial == {60, 62, 34, 39}
RECURSIVE HtmlDec_(_, _, _)
HtmlDec_(t, i, acc) ==
  IF i > Len(t) THEN [ok |-> TRUE, s |-> acc]
  ELSE IF t[i] = 38 THEN
    LET S == {k \in 1..Len(Ents) : At(t, i, Ents[k].e)} IN
    IF S = {} THEN [ok |-> FALSE, s |-> acc] ELSE LET k == CHOOSE k \in S : TRUE IN HtmlDec_(t, i + Len(Ents[k].e), Append(acc, Ents[k].c))
  ELSE IF t[i] \in HtmlSpecial THEN [ok |-> FALSE, s |-> acc]
  ELSE HtmlDec_(t, i + 1, Append(acc, t[i]))
HtmlOk(s, t) == LET d == HtmlDec_(t, 1, <<>>) IN d.ok /\ d.s = s
HtmlPlain(s) == \A i \in 1..Len(s) : s[i] \notin HtmlSpecial \union {38}
---- \* C string literals
Oct(c) == c \in 48..55
CEsc == [c \in {110, 116, 114, 34, 92, 97, 98, 102, 118, 63, 39} |->
  CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 118 -> 11 [] OTHER -> c]
Bad == [ok |-> FALSE, s |-> <<>>]
RECURSIVE CIn(_, _, _), COut(_, _, _)
CIn(t, i, acc) ==
  IF i > Len(t) \/ t[i] = 10 THEN Bad
  ELSE IF t[i] = 34 THEN COut(t, i + 1, acc)
  ELSE IF t[i] # 92 THEN CIn(t, i + 1, Append(acc, t[i]))
  ELSE IF i = Len(t) THEN Bad
  ELSE IF t[i + 1] \in DOMAIN CEsc THEN CIn(t, i + 2, Append(acc, CEsc[t[i + 1]]))
  ELSE IF Oct(t[i + 1]) THEN
    LET n == IF i + 2 <= Len(t) /\ Oct(t[i + 2]) THEN (IF i + 3 <= Len(t) /\ Oct(t[i + 3]) THEN 3 ELSE 2) ELSE 1
        v == IF n = 3 THEN ((t[i + 1] - 48) * 64) + ((t[i + 2] - 48) * 8) + t[i + 3] - 48 ELSE IF n = 2 THEN ((t[i + 1] - 48) * 8) + t[i + 2] - 48 ELSE t[i + 1] - 48 IN
    IF v > 255 THEN Bad ELSE CIn(t, i + 1 + n, Append(acc, v))
  ELSE Bad
COut(t, i, acc) == IF i > Len(t) THEN [ok |-> TRUE, s |-> acc] ELSE IF t[i] \in {9, 10, 13, 32} THEN COut(t, i + 1, acc) ELSE IF t[i] = 34 THEN CIn(t, i + 1, acc) ELSE Bad
CDec(t) == IF t = <<>> \/ t[1] # 34 THEN Bad ELSE CIn(t, 2, <<>>)
CQuoteOk(s, t) == LET d == CDec(t) IN d.ok /\ d.s = s
CQuoteMaxOk(s, n, t) == Len(t) < n /\ LET d == CDec(t) IN d.ok /\ Len(d.s) <= Len(s) /\ d.s = SubSeq(s, 1, Len(d.s)) /\ (Len(d.s) < Len(s) => Len(t) + 6 >= n)
=============================================================================
