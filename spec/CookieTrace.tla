---------------------------- MODULE CookieTrace ----------------------------
EXTENDS Cookie, TraceBase
VARIABLES ck, add, ob      \* Cookie headers of the request, cookies set by the handler, bytes sent
vars == <<tid, l, ck, add, ob>>
Now == 1700000000
TInit == TBInit /\ ck = <<>> /\ add = <<>> /\ ob = <<>>
Size(o) == Len(o.n) + Len(o.v) + Len(o.path) + Len(o.dom)
Set == SelectSeq(add, LAMBDA o : o.r)
\* the Set-Cookie headers are those asked for; of several with one name at least the last
Sent == LET h == HeaderVs(ob, B("Set-Cookie")) S == Set IN
  LET sc == [i \in 1..Len(h) |-> SetCookie(h[i])] IN
  /\ \A i \in 1..Len(S) : (\A j \in (i + 1)..Len(S) : S[j].n # S[i].n) => Cardinality({k \in 1..Len(h) : Asks(sc[k], S[i], Now)}) >= 1
  /\ \A k \in 1..Len(h) : \E i \in 1..Len(S) : Asks(sc[k], S[i], Now)
  /\ Len(h) <= Len(S)
TNext ==
  \/ Is("open") /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("in") /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("req") /\ ck' = Ev.ck /\ add' = <<>> /\ ob' = <<>> /\ Advance
  \/ /\ Is("cks") /\ IF SameCookies(AllCookies(ck), Ev.d) THEN TRUE ELSE FALSE
     /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ /\ Is("ck") /\ IF LET v == Named(Norm(AllCookies(ck)), Ev.k) IN IF v = <<>> THEN ~Ev.has ELSE Ev.has /\ \E i \in 1..Len(v) : v[i] = Trim(Ev.v) THEN TRUE ELSE FALSE
     /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ /\ Is("addc") /\ (Size(Ev) < 3800 => Ev.r) /\ add' = Append(add, Ev) /\ Advance /\ UNCHANGED <<ck, ob>>
  \/ Is("op") /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("ret") /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("out") /\ ob' = ob \o Ev.d /\ Advance /\ UNCHANGED <<ck, add>>
  \/ Is("st") /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("close") /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("cut") /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("done") /\ (IF Sent THEN TRUE ELSE FALSE) /\ Advance /\ UNCHANGED <<ck, add, ob>>
  \/ Is("end") /\ Ev.live = 0 /\ Advance /\ UNCHANGED <<ck, add, ob>>
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
