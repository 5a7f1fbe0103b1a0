------------------------------- MODULE Cookie -------------------------------
(* Cookies: what a Cookie header says, and what a Set-Cookie header says.   *)
EXTENDS Date
LOCAL Part(p) == LET t == TrimL(p) i == IndexFrom(t, 1, 61) IN
                 IF i = 0 THEN <<>> ELSE <<[k |-> SubSeq(t, 1, i - 1), v |-> SubSeq(t, i + 1, Len(t))]>>
\* the cookies of a header, in order; parts that are no name=value are no cookies
Cookies(h) == LET ps == Split(h, 59) IN Concat([i \in 1..Len(ps) |-> Part(ps[i])])
AllCookies(hs) == Concat([i \in 1..Len(hs) |-> Cookies(hs[i])])
\* blanks around names and values are not told apart, and cookies without a name do not matter
Norm(cs) == LET t == [i \in 1..Len(cs) |-> [k |-> Trim(cs[i].k), v |-> Trim(cs[i].v)]] IN SelectSeq(t, LAMBDA c : c.k # <<>>)
Named(cs, k) == LET s == SelectSeq(cs, LAMBDA c : c.k = k) IN [i \in 1..Len(s) |-> s[i].v]
SameCookies(a, b) == LET x == Norm(a) y == Norm(b) IN
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : Named(x, x[i].k) = Named(y, x[i].k)
\* Set-Cookie: name=value and attributes
SetCookie(v) == LET ps == Split(v, 59) IN
  [kv |-> ps[1], a |-> [i \in 1..(Len(ps) - 1) |-> LET t == Trim(ps[i + 1]) j == IndexFrom(t, 1, 61) IN
      IF j = 0 THEN [k |-> Lower(t), v |-> <<>>] ELSE [k |-> Lower(SubSeq(t, 1, j - 1)), v |-> SubSeq(t, j + 1, Len(t))]]]
AttrV(sc, k) == Named(sc.a, k)
Expired == B("Thu, 01 Jan 1970 00:00:00 GMT")
\* dates of cookies: fields of HTTP dates, in universal time under either of its names
DateIs(d, t) == LET x == HttpDate(t) n == Len(x) - 4 IN d \in {x, SubSeq(x, 1, n) \o B(" UTC"), CookieDate(t)}
SameSite(f) == CASE f = 16 -> B("none") [] f = 32 -> B("lax") [] f = 64 -> B("strict") [] OTHER -> <<>>
Bits(f) == [ho |-> (f % 2) = 1, sec |-> ((f \div 2) % 2) = 1, ss |-> ((f \div 16) * 16) % 128]
\* does a Set-Cookie header ask for what the handler asked for
Asks(sc, o, now) == LET b == Bits(o.f) E == AttrV(sc, B("expires")) M == AttrV(sc, B("max-age")) IN
  /\ sc.kv = o.n \o <<61>> \o o.v
  /\ AttrV(sc, B("path")) = (IF o.p0 THEN <<>> ELSE <<o.path>>)
  /\ AttrV(sc, B("domain")) = (IF o.d0 THEN <<>> ELSE <<o.dom>>)
  /\ AttrV(sc, B("httponly")) = (IF b.ho THEN << <<>> >> ELSE <<>>)
  /\ AttrV(sc, B("secure")) = (IF b.sec THEN << <<>> >> ELSE <<>>)
  /\ LET s == AttrV(sc, B("samesite")) IN IF SameSite(b.ss) = <<>> THEN s = <<>> ELSE Len(s) = 1 /\ IEq(s[1], SameSite(b.ss))
  /\ IF o.t < 0 THEN E = <<>> /\ M = <<>>
     ELSE IF o.t = 0 THEN (E # <<>> \/ M # <<>>) /\ (E # <<>> => E = <<Expired>>) /\ (M # <<>> => M = <<B("0")>>)
     ELSE (E # <<>> \/ M # <<>>) /\ (E # <<>> => Len(E) = 1 /\ DateIs(E[1], now + o.t)) /\ (M # <<>> => M = <<DecBytes(o.t)>>)
  /\ \A i \in 1..Len(sc.a) : sc.a[i].k \in {B("path"), B("domain"), B("httponly"), B("secure"), B("samesite"), B("expires"), B("max-age")}
\* head of a response: lines of name and value
Head_(d) == LET e == FindFrom(d, 1, <<13, 10, 13, 10>>) IN IF e = 0 THEN d ELSE SubSeq(d, 1, e + 1)
Lines(d) == LET s == Split(Head_(d), LF) IN [i \in 1..Len(s) |-> IF s[i] # <<>> /\ s[i][Len(s[i])] = CR THEN SubSeq(s[i], 1, Len(s[i]) - 1) ELSE s[i]]
HeaderVs(d, name) == LET ls == Lines(d)
                         F(x) == LET i == IndexFrom(x, 1, 58) IN IF i > 1 /\ IEq(SubSeq(x, 1, i - 1), name) THEN <<Trim(SubSeq(x, i + 1, Len(x)))>> ELSE <<>>
                     IN Concat([i \in 1..Len(ls) |-> F(ls[i])])
=============================================================================
