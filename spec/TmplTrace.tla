----------------------------- MODULE TmplTrace -----------------------------
EXTENDS TraceBase, Tmpl
VARIABLES F, trees, ones
vars == <<tid, l, F, trees, ones>>
TInit == TBInit /\ F = <<>> /\ trees = <<>> /\ ones = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* what follows a packed handler answers with a dash and the path it sees
Answer(r, st, body) == r.st = st /\ r.body = body
Step ==
  \/ /\ Is("tfile") /\ F' = Put(F, Ev.f, Lex(Ev.d)) /\ UNCHANGED <<trees, ones>>
  \/ /\ Is("render") /\ Ev.st = 200 /\ Ev.out = Render(F, Ev.f, Ev.ctx) /\ UNCHANGED <<F, trees, ones>>
  \/ /\ Is("pdir") /\ trees' = Put(trees, Ev.n, Ev.tree) /\ UNCHANGED <<F, ones>>
  \/ /\ Is("pone") /\ ones' = Put(ones, Ev.n, Ev.d) /\ UNCHANGED <<F, trees>>
  \/ /\ Is("pget") /\ UNCHANGED <<F, trees, ones>>
     /\ LET x == IF Ev.n \in DOMAIN ones THEN <<ones[Ev.n]>> ELSE Find(trees[Ev.n], Ev.path) IN
        IF Len(Ev.r) # 2 THEN FALSE
        ELSE IF x = <<>> THEN Answer(Ev.r[1], 200, IF Ev.head THEN <<>> ELSE <<45>> \o Ev.path) /\ Ev.r[1].len = Len(Ev.path) + 1
        ELSE Answer(Ev.r[1], 200, IF Ev.head THEN <<>> ELSE x[1]) /\ (Ev.mime # <<>> => Ev.r[1].ct = Ev.mime) /\ (Ev.lk => Ev.r[1].len = Len(x[1]))
     /\ Answer(Ev.r[2], 200, B("next"))
  \/ /\ Is("end") /\ Ev.live = 0 /\ UNCHANGED <<F, trees, ones>>
TNext == Step /\ Advance
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
