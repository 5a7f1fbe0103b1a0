----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, TraceBase
VARIABLES med,     \* medium -> contents
          kind,    \* store -> medium (memory stores have their own)
          issued, pend, broken
vars == <<tid, l, med, kind, issued, pend, broken>>
TInit == TBInit /\ med = [m \in {} |-> Empty] /\ kind = [s \in {} |-> 0] /\ issued = {} /\ pend = <<>> /\ broken = {}
\* medium of a store: its own for memory, one file and one server for the others
Medium(s, k) == IF k = 0 THEN 10 + s ELSE k
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* after a fault of the server its contents are not determined: what a request under way was to do may be done or not
Fuzzy(m) == m \in broken
TNext ==
  \/ /\ Is("open") /\ Ev.ok /\ kind' = With(kind, Ev.s, Medium(Ev.s, Ev.kind))
     /\ med' = IF Medium(Ev.s, Ev.kind) \in DOMAIN med THEN med ELSE With(med, Medium(Ev.s, Ev.kind), Empty)
     /\ Advance /\ UNCHANGED <<issued, pend, broken>>
  \/ /\ Is("save") /\ pend = <<>> /\ pend' = <<"save">> /\ med' = [med EXCEPT ![kind[Ev.s]] = Put(@, Ev.id, Ev.d)]
     /\ Advance /\ UNCHANGED <<kind, issued, broken>>
  \/ /\ Is("remove") /\ pend = <<>> /\ pend' = <<"remove">> /\ med' = [med EXCEPT ![kind[Ev.s]] = Del(@, Ev.id)]
     /\ Advance /\ UNCHANGED <<kind, issued, broken>>
  \/ /\ Is("done") /\ pend # <<>> /\ pend' = <<>> /\ Advance /\ UNCHANGED <<med, kind, issued, broken>>
  \/ /\ Is("get") /\ pend = <<>>
     /\ IF Fuzzy(kind[Ev.s]) THEN TRUE
        ELSE LET st == med[kind[Ev.s]] IN IF Found(st, Ev.id) THEN Ev.has /\ Ev.d = st[Ev.id] ELSE ~Ev.has
     /\ Advance /\ UNCHANGED <<med, kind, issued, pend, broken>>
  \/ /\ Is("create") /\ pend = <<>> /\ IdOk(Ev.id) /\ Ev.id \notin issued /\ issued' = issued \cup {Ev.id}
     /\ ~Found(med[kind[Ev.s]], Ev.id) /\ med' = [med EXCEPT ![kind[Ev.s]] = Put(@, Ev.id, <<>>)]
     /\ Advance /\ UNCHANGED <<kind, pend, broken>>
  \/ /\ Is("reopen") /\ pend = <<>> /\ kind[Ev.s] < 10 /\ Advance /\ UNCHANGED <<med, kind, issued, pend, broken>>
  \/ /\ Is("fault") /\ broken' = broken \cup {2} /\ Advance /\ UNCHANGED <<med, kind, issued, pend>>
  \/ /\ Is("bad") /\ ~Ev.ok /\ Advance /\ UNCHANGED <<med, kind, issued, pend, broken>>
  \/ /\ Is("ids") /\ IF Cardinality({Ev.ids[i] : i \in 1..Len(Ev.ids)}) = Len(Ev.ids) THEN TRUE ELSE FALSE
     /\ IF \A i \in 1..Len(Ev.ids) : IdOk(Ev.ids[i]) THEN TRUE ELSE FALSE
     /\ IF Len(Ev.ids) >= 60 => Varied(Ev.ids, 8) THEN TRUE ELSE FALSE
     /\ Advance /\ UNCHANGED <<med, kind, issued, pend, broken>>
  \/ /\ Is("end") /\ Ev.live = 0 /\ Advance /\ UNCHANGED <<med, kind, issued, pend, broken>>
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
