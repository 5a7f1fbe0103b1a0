------------------------------- MODULE Poller -------------------------------
(* What may be seen of the descriptors of a poller.  Times are in milliseconds; timeouts are kept in whole seconds. *)
EXTENDS Integers, FiniteSets, Sequences
NoD == [st |-> "no", k |-> 0, sd |-> FALSE, tmo |-> -1, run |-> -1, pend |-> 0, hup |-> FALSE, left |-> FALSE, rm |-> 0, last |-> 0, may |-> FALSE, fly |-> FALSE, wo |-> FALSE]
Sec(t) == t \div 1000
\* its timeout has passed at time t, counted in whole seconds
Due(d, t) == d.tmo > 0 /\ Sec(t) >= Sec(d.last) + (d.tmo \div 1000)
\* it should be closed by now
Late(d, t) == d.tmo > 0 /\ t > d.last + d.tmo + 1001
Added(d, k, tmo, sd, wo, t) == [NoD EXCEPT !.wo = wo, !.st = "in", !.k = k, !.tmo = tmo, !.sd = sd, !.last = t]
\* a callback may begin: alone, for something to read or an end, and never after leaving; one which some thread
\* had already decided to call when it was removed may still come (its shutdown comes after it)
MayCall(d, got, eof, t) ==
  /\ d.st = "in" /\ d.run = -1 /\ ~d.left /\ (d.rm = 2 => ~d.fly)
  /\ got <= d.pend /\ (d.pend > 0 \/ d.hup \/ eof)
  /\ (eof => d.hup \/ d.may \/ Due(d, t))
Called(d, th, got, t) == [d EXCEPT !.run = th, !.pend = @ - got, !.may = @ \/ Due(d, t), !.fly = @ \/ (d.rm = 2)]
Returned(d, ret, t) == [d EXCEPT !.run = -1, !.left = @ \/ ret < 0 \/ d.rm = 2, !.last = t]
\* (one that only waits for writing cannot be told of an end: it just goes)
MayShut(d, freeing, t) == d.st = "in" /\ d.sd /\ d.run = -1 /\ (d.left \/ d.rm > 0 \/ d.hup \/ freeing \/ (d.wo /\ (d.may \/ Due(d, t))))
Out(d) == d.left \/ d.rm = 2 \/ d.hup
\* when nothing else happens and some polling thread is free
Settled(d, t) == d.st = "in" /\ d.run = -1 => IF Out(d) THEN ~d.sd ELSE (d.pend = 0 /\ ~Late(d, t))
\* when nothing else happens, whether or not somebody polls
Cleaned(d) == d.st = "in" /\ d.run = -1 /\ (d.left \/ d.rm = 2) => ~d.sd
=============================================================================
