------------------------------- MODULE DictGen -------------------------------
(* Bounded user of Dict: used both for exhaustive checking (hist hidden by VIEW) and, with          *)
(* Record = TRUE under -simulate, for writing out call sequences to replay on the real library.    *)
EXTENDS Dict, TLC, Json, IOUtils, CSV

CONSTANTS Bases, Vals, MaxObj, MaxEnt, Depth, Record
VARIABLE hist

gvars == <<objs, rets, hist>>
Keys == Bases \X {0, 1}
\* random walks draw arguments instead of enumerating them
Some(S) == IF Record /\ S # {} THEN {RandomElement(S)} ELSE S
\* handles, not objects, are written out; prefer the last handle of an object
HOf(o) == CHOOSE h \in 1..Len(rets) : rets[h] = o
\* which of several equal entries is hit is up to the library; avoid walks whose continuation depends on it
Clear(o, k, rep) == (Record /\ rep) => LET m == Matches(objs[o].ic, objs[o].ent, k) IN
                      Cardinality(m) <= 1 \/ \A i \in m : objs[o].ent[i].t = "s"
H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Room(n) == Len(objs) + n <= MaxObj
Small(o) == Len(objs[o].ent) < MaxEnt

GInit == DInit /\ hist = <<>>
GNew == Room(1) /\ \E ic \in Some(BOOLEAN) : New(ic) /\ H([op |-> "new", ic |-> ic])
GAdd == \E o \in Some(Usable) : \E k \in Some(Keys), s \in Some(Vals), rep \in Some(BOOLEAN), m \in Some(IF Record THEN {"dup", "own", "static"} ELSE {"dup"}) :
          Small(o) /\ Clear(o, k, rep) /\ Add(o, k, s, rep) /\ UNCHANGED rets /\ H([op |-> "add", o |-> HOf(o), k |-> k, s |-> s, rep |-> rep, m |-> m])
GGive == \E o \in Some(Usable), c \in Some(Usable) : \E k \in Some(Keys), rep \in Some(BOOLEAN) :
          /\ o \notin Reach(objs, c) /\ Small(o)
          /\ Clear(o, k, rep) /\ AddGive(o, k, c, rep) /\ UNCHANGED rets /\ H([op |-> "give", o |-> HOf(o), k |-> k, c |-> HOf(c), rep |-> rep])
GCopy == \E o \in Some(Usable), c \in Some(Usable) : \E k \in Some(Keys), rep \in Some(BOOLEAN) :
          /\ Room(Cardinality(Reach(objs, c)) + 1) /\ Small(o) /\ o # c
          /\ Clear(o, k, rep) /\ AddCopy(o, k, c, rep) /\ UNCHANGED rets /\ H([op |-> "copy", o |-> HOf(o), k |-> k, c |-> HOf(c), rep |-> rep])
GRemove == \E o \in Some(Usable) : \E k \in Some(Keys) : Clear(o, k, TRUE) /\ Remove(o, k) /\ UNCHANGED rets /\ H([op |-> "remove", o |-> HOf(o), k |-> k])
GDup  == (Record => RandomElement(1..3) = 1) /\ \E o \in Some(Usable) : objs[o].own < 2 /\ Dup(o) /\ UNCHANGED rets /\ H([op |-> "dup", o |-> HOf(o)])
GHDup == \E o \in Some(Usable) : Room(Cardinality(Reach(objs, o)) + 1) /\ HDup(o) /\ H([op |-> "hdup", o |-> HOf(o)])
GFree == (Record => Cardinality(Usable) > 1 /\ RandomElement(1..3) = 1) /\ \E o \in Some(Usable) : Free(o) /\ UNCHANGED rets /\ H([op |-> "free", o |-> HOf(o), alive |-> objs[o].refs > 1])
GMerge == \E o \in Some(Usable), p \in Some(Usable) :
           /\ o # p /\ o \notin Reach(objs, p) /\ p \notin Reach(objs, o) /\ Len(objs[o].ent) + Len(objs[p].ent) <= MaxEnt
           /\ Room(2 * Cardinality(Reach(objs, p)))
           /\ \A i \in 1..Len(objs[p].ent) : Clear(o, objs[p].ent[i].k, objs[p].ent[i].r)
           /\ (Record => Cardinality(MergeEnt(objs, o, objs[p].ent, 1)) = 1)
           /\ Merge(o, p) /\ UNCHANGED rets /\ H([op |-> "merge", o |-> HOf(o), p |-> HOf(p)])
\* queries do not change the state; they are only worth generating for replay
Q == Record /\ RandomElement(1..2) = 1 /\ UNCHANGED <<objs, rets>>
GGet   == Q /\ \E o \in Some(Usable), k \in Some(Keys) : H([op |-> "get", o |-> HOf(o), k |-> k])
GCount == Q /\ \E o \in Some(Usable) : H([op |-> "count", o |-> HOf(o)])
GList  == Q /\ \E o \in Some(Usable) : H([op |-> "list", o |-> HOf(o)])
GRGet  == Q /\ \E o \in Some(Usable), n \in Some(1..3), d \in Some(BOOLEAN) : \E a \in Some(Keys), b \in Some(Keys), c \in Some(Keys) :
            H([op |-> IF d THEN "rgetd" ELSE "rget", o |-> HOf(o), ks |-> SubSeq(<<a, b, c>>, 1, n)])
\* bias the random walks towards paths that exist
GRGetIn == Q /\ \E o \in Some(Usable), d \in Some(BOOLEAN) : \E i \in 1..Len(objs[o].ent) : objs[o].ent[i].t = "d" /\
            LET e == objs[o].ent[i] IN \E k \in Some(Keys) :
            H([op |-> IF d THEN "rgetd" ELSE "rget", o |-> HOf(o), ks |-> <<e.k, k>>])
GNext == GGet \/ GCount \/ GList \/ GRGet \/ GRGetIn \/ GNew \/ GAdd \/ GGive \/ GCopy \/ GRemove \/ GDup \/ GHDup \/ GFree \/ GMerge
GSpec == GInit /\ [][GNext]_gvars

NoHist == <<objs, rets>>
Bound == Len(objs) <= MaxObj
\* writes the behaviour when it has reached the wanted length (under -simulate)
Emit == (Record /\ Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson([ops |-> hist, own |-> [h \in 1..Len(rets) |-> IF h = HOf(rets[h]) THEN objs[rets[h]].own ELSE 0]])>>, IOEnv.OUT)
=============================================================================
