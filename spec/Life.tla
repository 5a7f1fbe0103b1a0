------------------------------- MODULE Life -------------------------------
(* The life of a server seen from outside: listening, being asked to stop, listening again, being freed, and what its *)
(* clients observe meanwhile.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets
Ports == 0..3
NoC == [p |-> 0, ord |-> 0, st |-> "no", sent |-> 0, cl |-> 0, hand |-> 0, run |-> FALSE, fin |-> 0, got |-> 0, at |-> 0, shut |-> FALSE]
\* up: nothing, called, returned (detached). ack: at some moment of this listening it was certainly listening, or had ended.
\* calm: came to rest, and nothing was asked since.  asked: a stop began that may have an effect on this listening.  down: a stop was certainly carried out
S0 == [one |-> FALSE, loop |-> FALSE, det |-> FALSE, th |-> 1, tmo |-> 5000, lps |-> <<>>, good |-> [p \in Ports |-> FALSE], up |-> "no", ack |-> FALSE, asked |-> FALSE, acc |-> FALSE,
       down |-> FALSE, sure |-> -1, since |-> 0, freed |-> FALSE, calm |-> FALSE, prev |-> FALSE, cnt |-> [p \in Ports |-> 0], n |-> 0]
Bound(s) == {s.lps[i] : i \in {k \in 1..Len(s.lps) : s.good[s.lps[k]]}}
\* servers that attend one connection at a time only attend the first port that works
Served(s) == IF s.one /\ Bound(s) # {} THEN {s.lps[CHOOSE k \in 1..Len(s.lps) : s.good[s.lps[k]] /\ \A i \in 1..(k - 1) : ~s.good[s.lps[i]]]} ELSE Bound(s)
Max(a, b) == IF a > b THEN a ELSE b
\* it listens for sure
Listening(s) == s.up # "no" /\ s.ack /\ ~s.asked /\ ~(s.one /\ ~s.loop /\ s.acc)
\* listen may have ended, or may end
MayEnd(s) == s.asked \/ (s.one /\ ~s.loop /\ s.acc)
MustAccept(s, p) == Listening(s) /\ p \in Bound(s) /\ s.cnt[p] < 5
MustRefuse(s, p) == (s.up = "no" \/ s.down) /\ p \in Bound(s)
\* requests the server has to look at
Eff(s, c) == IF s.one /\ c.sent > 1 THEN 1 ELSE IF c.cl > 0 /\ c.cl < c.sent THEN c.cl ELSE c.sent
MayEof(s, c, t) == \/ s.freed \/ s.asked \/ s.up = "no" \/ (c.shut /\ c.got > 0) \/ (s.one /\ (c.got > 0 \/ s.acc \/ ~(c.p \in Served(s)))) \/ t >= c.at + s.tmo - 1000
=============================================================================
