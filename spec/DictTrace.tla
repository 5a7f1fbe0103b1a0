------------------------------ MODULE DictTrace ------------------------------
EXTENDS Dict, TraceBase

tvars == <<objs, rets, tid, l>>
TInit == TBInit /\ DInit

EO == Obj(Ev.o)
Same == UNCHANGED <<objs, rets>>
\* after every mutation the harness lists the dictionary concerned
After(o) == Ev.chk => Dump(objs', o) = Ev.after

TNew    == Is("new")   /\ New(Ev.ic) /\ Len(rets') = Ev.o
TAdd    == Is("add")   /\ Add(EO, Ev.k, Ev.s, Ev.rep) /\ UNCHANGED rets /\ After(EO)
TGive   == Is("give")  /\ AddGive(EO, Ev.k, Obj(Ev.c), Ev.rep) /\ UNCHANGED rets /\ After(EO)
TCopy   == Is("copy")  /\ AddCopy(EO, Ev.k, Obj(Ev.c), Ev.rep) /\ UNCHANGED rets /\ After(EO)
TRemove == Is("remove") /\ Remove(EO, Ev.k) /\ UNCHANGED rets /\ After(EO)
           /\ Ev.ret = (Matches(objs[EO].ic, objs[EO].ent, Ev.k) # {})
TDup    == Is("dup")   /\ Dup(EO) /\ UNCHANGED rets /\ After(EO) /\ Ev.same
THDup   == Is("hdup")  /\ HDup(EO) /\ Len(rets') = Ev.r /\ After(rets'[Ev.r])
TMerge  == Is("merge") /\ Merge(EO, Obj(Ev.p)) /\ UNCHANGED rets /\ After(EO)
TFree   == Is("free")  /\ Free(EO) /\ UNCHANGED rets /\ After(EO)
TList   == Is("list")  /\ Same /\ Dump(objs, EO) = Ev.after
TCount  == Is("count") /\ Same /\ Ev.n = Len(objs[EO].ent)
TGet    == Is("get")   /\ Same /\ GetOk(EO, Ev.k, Ev.t, Ev.s) /\ CostOk(Len(objs[EO].ent), Ev.cost)
TRGet   == Is("rget")  /\ Same /\ RGetOk(EO, Ev.ks, Ev.t, Ev.s)
TRGetD  == Is("rgetd") /\ Same /\ RGetDictOk(EO, Ev.ks, Ev.t, Ev.after)
\* every allocation made for a dictionary is given back once nobody holds it
TEnd    == Is("end")   /\ Same /\ ((\A o \in Ids : ~Alive(o)) => Ev.live = 0)

TNext == /\ TNew \/ TAdd \/ TGive \/ TCopy \/ TRemove \/ TDup \/ THDup \/ TMerge \/ TFree
            \/ TList \/ TCount \/ TGet \/ TRGet \/ TRGetD \/ TEnd
         /\ Advance
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
