----------------------------- MODULE ConcTrace -----------------------------
EXTENDS Conc, TraceBase
VARIABLES st, objs, q, sh, mime, own
vars == <<tid, l, st, objs, q, sh, mime, own>>
T == 0..7
TInit == TBInit /\ st = [k \in {} |-> Entry(-1, Empty)] /\ objs = [o \in {0} |-> Empty] /\ q = [t \in T |-> NoReq] /\ sh = TRUE /\ mime = [f \in {} |-> ""] /\ own = ""
Q == q[Ev.t]
D(o) == [k \in Ks |-> o[k]]
Silent(t) ==
  \/ /\ q[t].ph = "load" /\ ~q[t].lin.done /\ q[t].so < 0 /\ q' = [q EXCEPT ![t] = LookLin(st, @)] /\ UNCHANGED <<st, objs>>
  \/ /\ q[t].ph = "free" /\ ~q[t].lin.done /\ st' = FreeSt(st, q[t]) /\ q' = [q EXCEPT ![t].lin.done = TRUE] /\ UNCHANGED objs
  \/ /\ q[t].ph = "end" /\ ~q[t].lin.done /\ q[t].so >= 0 /\ st' = EndSt(st, objs, q[t]) /\ q' = [q EXCEPT ![t].lin.done = TRUE] /\ UNCHANGED objs
  \* its session always exists
  \/ /\ q[t].ph = "door" /\ On(st, q[t].k) /\ LET o == st[q[t].k].o x == [q[t] EXCEPT !.sk = q[t].k, !.so = o] IN
        q' = [q EXCEPT ![t] = IF objs[o]["l"] # "" THEN [x EXCEPT !.ph = "run"] ELSE IF x.rq.kind = "A" THEN [x EXCEPT !.ph = "login"] ELSE [x EXCEPT !.ph = "end", !.lin = NoLin, !.code = 401]]
     /\ UNCHANGED <<st, objs>>
  \/ q[t].ph = "login" /\ objs' = [objs EXCEPT ![q[t].so] = Login(@)] /\ q' = [q EXCEPT ![t].ph = "run"] /\ UNCHANGED st
TNext ==
  \/ More /\ (\E t \in T : Silent(t)) /\ UNCHANGED <<tid, l, sh, mime, own>>
  \/ Is("new") /\ sh' = Ev.shared /\ own' = Ev.own /\ Advance /\ UNCHANGED <<st, objs, q, mime>>
  \/ /\ Is("slot") /\ Ev.k \notin DOMAIN st /\ Ev.o \notin DOMAIN objs
     /\ st' = With(st, Ev.k, Entry(Ev.o, D(Ev.d))) /\ objs' = With(objs, Ev.o, D(Ev.d)) /\ Advance /\ UNCHANGED <<q, sh, mime, own>>
  \/ Is("rb") /\ Q.ph = "idle" /\ q' = [q EXCEPT ![Ev.t] = [NoReq EXCEPT !.k = Ev.k, !.ph = IF Ev.kind \in {"A", "a"} THEN "door" ELSE "run", !.rq = [kind |-> Ev.kind, tag |-> Ev.tag, exp |-> Ev.exp]]] /\ Advance /\ UNCHANGED <<st, objs, sh, mime, own>>
  \/ Is("lb") /\ Q.ph = "run" /\ q' = [q EXCEPT ![Ev.t].ph = "load", ![Ev.t].lin = NoLin] /\ Advance /\ UNCHANGED <<st, objs, sh, mime, own>>
  \/ /\ Is("le") /\ Q.ph = "load" /\ Ev.has
     /\ IF Q.so >= 0 THEN Ev.k = Q.sk /\ Ev.o = Q.so /\ UNCHANGED <<st, objs>>
        ELSE /\ Q.lin.done
             /\ IF Q.lin.has THEN /\ Ev.k = Q.k /\ st' = st
                                  /\ IF sh THEN Ev.o = Q.lin.o /\ UNCHANGED objs ELSE Ev.o \notin DOMAIN objs /\ objs' = With(objs, Ev.o, Q.lin.d)
                ELSE Ev.k \notin DOMAIN st /\ Ev.o \notin DOMAIN objs /\ st' = With(st, Ev.k, Entry(Ev.o, Empty)) /\ objs' = With(objs, Ev.o, Empty)
     /\ q' = [q EXCEPT ![Ev.t].ph = "run", ![Ev.t].sk = Ev.k, ![Ev.t].so = Ev.o] /\ Advance /\ UNCHANGED <<sh, mime, own>>
  \/ Is("fb") /\ Q.ph = "run" /\ q' = [q EXCEPT ![Ev.t].ph = "free", ![Ev.t].lin = NoLin] /\ Advance /\ UNCHANGED <<st, objs, sh, mime, own>>
  \/ Is("fe") /\ Q.ph = "free" /\ Q.lin.done /\ q' = [q EXCEPT ![Ev.t].ph = "run", ![Ev.t].sk = -1, ![Ev.t].so = -1] /\ Advance /\ UNCHANGED <<st, objs, sh, mime, own>>
  \/ Is("set") /\ Ev.o \in DOMAIN objs /\ objs' = [objs EXCEPT ![Ev.o] = Assign(@, Ev.kv)] /\ Advance /\ UNCHANGED <<st, q, sh, mime, own>>
  \/ Is("del") /\ Ev.o \in DOMAIN objs /\ objs' = [objs EXCEPT ![Ev.o][Ev.k] = ""] /\ Advance /\ UNCHANGED <<st, q, sh, mime, own>>
  \/ Is("get") /\ Ev.o \in DOMAIN objs /\ D(Ev.d) = objs[Ev.o] /\ Ev.n = Cardinality(Keys(objs[Ev.o])) /\ Advance /\ UNCHANGED <<st, objs, q, sh, mime, own>>
  \/ Is("mime") /\ (Ev.f \in DOMAIN mime => mime[Ev.f] = Ev.v) /\ mime' = With(mime, Ev.f, Ev.v) /\ Advance /\ UNCHANGED <<st, objs, q, sh, own>>
  \/ Is("eb") /\ Q.ph = "run" /\ q' = [q EXCEPT ![Ev.t].ph = "end", ![Ev.t].lin = NoLin] /\ Advance /\ UNCHANGED <<st, objs, sh, mime, own>>
  \/ /\ Is("ee") /\ (IF Q.ph = "end" THEN Q.lin.done \/ Q.so < 0 ELSE Q.ph = "run" /\ Q.rq.kind \in {"f", "l"}) /\ (Ev.cl => ~Ev.open)
     /\ q' = [q EXCEPT ![Ev.t].ph = "answer"] /\ Advance /\ UNCHANGED <<st, objs, sh, mime, own>>
  \/ /\ Is("resp") /\ Q.ph = "answer" /\ Ev.code = Q.code /\ Ev.whole /\ (Q.code = 200 => Ev.b = Answer(Q.rq, own))
     /\ (Ev.date # -1 => Ev.date >= Ev.t0 /\ Ev.date <= Ev.t1) /\ (IF Q.rq.exp /\ Q.code = 200 THEN Ev.exp >= Ev.t0 /\ Ev.exp <= Ev.t1 ELSE Ev.exp = -1)
     /\ q' = [q EXCEPT ![Ev.t] = NoReq] /\ Advance /\ UNCHANGED <<st, objs, sh, mime, own>>
  \* at the end: what is stored
  \/ /\ Is("stored") /\ Ev.has = On(st, Ev.k) /\ (Ev.has => D(Ev.d) = (IF sh THEN objs[st[Ev.k].o] ELSE st[Ev.k].d) /\ Ev.n = Cardinality(Keys(D(Ev.d))))
     /\ Advance /\ UNCHANGED <<st, objs, q, sh, mime, own>>
  \/ Is("end") /\ Ev.live = 0 /\ Advance /\ UNCHANGED <<st, objs, q, sh, mime, own>>
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
