------------------------------ MODULE TimerMC ------------------------------
(* How timeouts are kept: one timer, set for the nearest limit known; limits are kept in whole seconds (ticks are  *)
(* halves of a second, so that times fall inside seconds).                                                         *)
EXTENDS Integers, FiniteSets
CONSTANTS Slots, Tmos, Horizon
VARIABLES now, timer, limit, tmo, last, shut, cur
vars == <<now, timer, limit, tmo, last, shut, cur>>
None == Horizon * 10
Sec == now \div 2
Inf == 100000
TInit == now = 0 /\ timer = None /\ limit = [s \in Slots |-> Inf] /\ tmo = [s \in Slots |-> 0] /\ last = [s \in Slots |-> 0] /\ shut = {} /\ cur = Inf
\* the timer is set for the second sl
Set(sl) == cur' = sl /\ timer' = (IF sl <= Sec THEN now ELSE now + ((sl - Sec) * 2))
Check(sl) == IF sl < cur THEN Set(sl) ELSE UNCHANGED <<cur, timer>>
Add(s, m) == tmo[s] = 0 /\ tmo' = [tmo EXCEPT ![s] = m] /\ last' = [last EXCEPT ![s] = now] /\ limit' = [limit EXCEPT ![s] = Sec + m] /\ Check(Sec + m) /\ UNCHANGED <<now, shut>>
Active(s) == tmo[s] > 0 /\ s \notin shut /\ last[s] # now /\ last' = [last EXCEPT ![s] = now] /\ limit' = [limit EXCEPT ![s] = Sec + tmo[s]] /\ Check(Sec + tmo[s]) /\ UNCHANGED <<now, tmo, shut>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Fire == /\ timer <= now
        /\ LET due == {s \in Slots : limit[s] <= Sec} rest == {limit[s] : s \in Slots \ due} IN
           /\ shut' = shut \cup {s \in due : tmo[s] > 0} /\ limit' = [s \in Slots |-> IF s \in due THEN Inf ELSE limit[s]]
           /\ LET nx == Min(rest \cup {Sec + 1000}) IN Set(nx)
        /\ UNCHANGED <<now, tmo, last>>
Tick == timer > now /\ now < Horizon /\ now' = now + 1 /\ UNCHANGED <<timer, limit, tmo, last, shut, cur>>
TNext == Fire \/ Tick \/ \E s \in Slots : Active(s) \/ \E m \in Tmos : Add(s, m)
TMSpec == TInit /\ [][TNext]_vars
NotEarly == \A s \in shut : (now \div 2) >= (last[s] \div 2) + tmo[s]
NotLate == \A s \in Slots : (tmo[s] > 0 /\ s \notin shut) => (now <= last[s] + (tmo[s] * 2) + 2)
=============================================================================
