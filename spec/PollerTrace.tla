---------------------------- MODULE PollerTrace ----------------------------
EXTENDS Poller, TraceBase
VARIABLES ds, np, stopped, freeing
vars == <<tid, l, ds, np, stopped, freeing>>
Ks == 0..3
Is_ == 0..63
TInit == TBInit /\ ds = [i \in {} |-> NoD] /\ np = [k \in Ks |-> 0] /\ stopped = [k \in Ks |-> FALSE] /\ freeing = [k \in Ks |-> FALSE]
D(i) == IF i \in DOMAIN ds THEN ds[i] ELSE NoD
Put(i, d) == ds' = [j \in DOMAIN ds \cup {i} |-> IF j = i THEN d ELSE ds[j]]
Busy(k) == Cardinality({i \in DOMAIN ds : ds[i].k = k /\ ds[i].run # -1})
Rest == UNCHANGED <<np, stopped, freeing>>
TNext ==
  \/ (Is("added") \/ Is("nap") \/ Is("wake")) /\ Advance /\ UNCHANGED <<ds, np, stopped, freeing>>
  \/ Is("add") /\ D(Ev.i).st = "no" /\ Put(Ev.i, Added(NoD, Ev.k, Ev.tmo, Ev.sd, Ev.wo, Ev.t)) /\ Advance /\ Rest
  \/ Is("ready") /\ Put(Ev.i, [D(Ev.i) EXCEPT !.pend = @ + 1]) /\ Advance /\ Rest
  \/ Is("hup") /\ Put(Ev.i, [D(Ev.i) EXCEPT !.hup = TRUE]) /\ Advance /\ Rest
  \/ /\ Is("cb") /\ MayCall(D(Ev.i), Ev.got, Ev.eof, Ev.t) /\ (\A j \in DOMAIN ds : ds[j].run # Ev.th)
     /\ Put(Ev.i, Called(D(Ev.i), Ev.th, Ev.got, Ev.t)) /\ Advance /\ Rest
  \/ Is("ce") /\ D(Ev.i).run = Ev.th /\ Put(Ev.i, Returned(D(Ev.i), Ev.ret, Ev.t)) /\ Advance /\ Rest
  \/ Is("shut") /\ MayShut(D(Ev.i), freeing[D(Ev.i).k], Ev.t) /\ Put(Ev.i, [D(Ev.i) EXCEPT !.st = "gone"]) /\ Advance /\ Rest
  \/ Is("rmb") /\ Put(Ev.i, [D(Ev.i) EXCEPT !.rm = IF @ = 2 THEN 2 ELSE 1]) /\ Advance /\ Rest
  \/ Is("rme") /\ Put(Ev.i, [D(Ev.i) EXCEPT !.rm = 2]) /\ Advance /\ Rest
  \/ Is("stop") /\ stopped' = [stopped EXCEPT ![Ev.k] = TRUE] /\ Advance /\ UNCHANGED <<ds, np, freeing>>
  \/ Is("polb") /\ np' = [np EXCEPT ![Ev.k] = @ + 1] /\ stopped' = (IF np[Ev.k] = 0 THEN [stopped EXCEPT ![Ev.k] = FALSE] ELSE stopped) /\ Advance /\ UNCHANGED <<ds, freeing>>
  \/ Is("pole") /\ stopped[Ev.k] /\ np' = [np EXCEPT ![Ev.k] = @ - 1] /\ Advance /\ UNCHANGED <<ds, stopped, freeing>>
  \* when threads take several events at once, those of a busy thread wait for it
  \/ /\ Is("quiet")
     /\ \A k \in Ks : /\ (stopped[k] => (np[k] = Busy(k)))
                      /\ (~stopped[k] /\ np[k] > Busy(k) /\ (Ev.q > 1 => Busy(k) = 0)) => \A i \in DOMAIN ds : (ds[i].k = k) => Settled(ds[i], Ev.t)
     /\ \A i \in DOMAIN ds : Cleaned(ds[i])
     /\ Advance /\ UNCHANGED <<ds, np, stopped, freeing>>
  \/ Is("free") /\ np[Ev.k] = 0 /\ freeing' = [freeing EXCEPT ![Ev.k] = TRUE] /\ Advance /\ UNCHANGED <<ds, np, stopped>>
  \/ Is("freed") /\ (\A i \in DOMAIN ds : (ds[i].k = Ev.k /\ ds[i].sd) => (ds[i].st # "in")) /\ Advance /\ UNCHANGED <<ds, np, stopped, freeing>>
  \/ Is("end") /\ Ev.live = 0 /\ Ev.fds = 0 /\ Advance /\ UNCHANGED <<ds, np, stopped, freeing>>
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
