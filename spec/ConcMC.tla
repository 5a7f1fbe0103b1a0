------------------------------ MODULE ConcMC ------------------------------
(* Every interleaving of a few requests that share sessions.  Atomic FALSE: the end of a request decides whether its    *)
(* session is empty at one moment, and acts at a later one; the look up finds the session at one moment and takes its   *)
(* reference at a later one.  Then what others set meanwhile is lost, and what others freed is used.                    *)
EXTENDS Conc
CONSTANTS Th, MaxReq, Atomic
VARIABLES st, objs, q, done, must, dead, used
vars == <<st, objs, q, done, must, dead, used>>
Slots == {0, 1}
Kk == {"a", "b"}
MInit == /\ st = [k \in Slots |-> Entry(k, IF k = 0 THEN [Empty EXCEPT !["a"] = "0"] ELSE Empty)] /\ objs = [o \in Slots |-> IF o = 0 THEN [Empty EXCEPT !["a"] = "0"] ELSE Empty]
         /\ q = [t \in Th |-> NoReq] /\ done = [t \in Th |-> 0] /\ must = [k \in Slots |-> IF k = 0 THEN {"a"} ELSE {}] /\ dead = {} /\ used = {}
Refs(o, s, r) == Cardinality({k \in DOMAIN s : s[k].on /\ s[k].o = o}) + Cardinality({t \in Th : r[t].so = o})
Dead(s, r) == {o \in DOMAIN objs : Refs(o, s, r) = 0}
Begin(t) == q[t].ph = "idle" /\ done[t] < MaxReq /\ \E k \in Slots : q' = [q EXCEPT ![t] = [NoReq EXCEPT !.k = k, !.ph = "load"]] /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<st, objs, must, dead, used>>
Look(t) == q[t].ph = "load" /\ ~q[t].lin.done /\ q' = [q EXCEPT ![t] = LET n == LookLin(st, @) IN IF Atomic /\ n.lin.has THEN [n EXCEPT !.so = n.lin.o] ELSE n] /\ UNCHANGED <<st, objs, done, must, dead, used>>
Take(t) == /\ q[t].ph = "load" /\ q[t].lin.done
           /\ IF q[t].lin.has THEN q' = [q EXCEPT ![t].ph = "run", ![t].sk = q[t].k, ![t].so = q[t].lin.o] /\ used' = used \cup {q[t].lin.o} /\ UNCHANGED dead
              ELSE q' = [q EXCEPT ![t] = NoReq] /\ UNCHANGED <<used, dead>>    \* a new one: nobody else's
           /\ UNCHANGED <<st, objs, done, must>>
Change(t) == q[t].ph = "run" /\ \E k \in Kk :
  \/ objs' = [objs EXCEPT ![q[t].so][k] = "1"] /\ must' = [must EXCEPT ![q[t].sk] = @ \cup {k}] /\ q' = [q EXCEPT ![t].ph = "ran"] /\ UNCHANGED <<st, done, dead, used>>
  \/ objs' = [objs EXCEPT ![q[t].so][k] = ""] /\ must' = [must EXCEPT ![q[t].sk] = @ \ {k}] /\ q' = [q EXCEPT ![t].ph = "ran"] /\ UNCHANGED <<st, done, dead, used>>
Decide(t) == ~Atomic /\ q[t].ph = "ran" /\ q' = [q EXCEPT ![t].ph = "end", ![t].lin = [NoLin EXCEPT !.has = objs[q[t].so] # Empty]] /\ UNCHANGED <<st, objs, done, must, dead, used>>
Drop(t, s) == st' = s /\ q' = [q EXCEPT ![t] = NoReq] /\ dead' = dead \cup Dead(s, [q EXCEPT ![t] = NoReq]) /\ UNCHANGED <<objs, done, must, used>>
End(t) == IF Atomic THEN q[t].ph = "ran" /\ Drop(t, EndSt(st, objs, q[t])) ELSE q[t].ph = "end" /\ Drop(t, IF q[t].lin.has THEN With(st, q[t].sk, Entry(q[t].so, objs[q[t].so])) ELSE Gone(st, q[t].sk))
MNext == \E t \in Th : Begin(t) \/ Look(t) \/ Take(t) \/ Change(t) \/ Decide(t) \/ End(t)
MSpec == MInit /\ [][MNext]_vars
Idle == \A t \in Th : q[t].ph = "idle"
\* what was set and not removed is there in the end
Kept == Idle => \A k \in Slots : must[k] # {} => On(st, k) /\ Keys(objs[st[k].o]) = must[k]
\* what nobody refers to any more is not used again
Alive == \A t \in Th : q[t].so >= 0 => q[t].so \notin dead
=============================================================================
