-------------------------------- MODULE Dict --------------------------------
(* Dictionaries of the library: reference counted objects holding entries sorted by key, where     *)
(* equal keys keep their insertion order, values are strings or (owned) nested dictionaries.       *)
(* A key is <<b, c>>: base b and letter case c (0 = upper, 1 = lower); a case insensitive          *)
(* dictionary orders and matches by base only.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES objs,   \* sequence of objects, by id: [refs, own, ic, ent]; dead iff refs = 0
                  \*   refs: reference count, own: references held by the user (the rest are held by entries)
                  \*   ent:  sequence of entries [k, t, s, d, r]: t = "s" string s, t = "d" nested object d,
                  \*         r: was stored with the replace flag (which a later merge honours)
          rets    \* object of every handle given to the user so far (handle numbers are indices)

vars == <<objs, rets>>
Obj(h) == rets[h]

Ids      == 1..Len(objs)
Alive(o) == objs[o].refs > 0
Usable   == {o \in Ids : objs[o].own > 0}

KLess(ic, a, b) == IF ic THEN a[1] < b[1] ELSE (a[2] < b[2]) \/ (a[2] = b[2] /\ a[1] < b[1])
KEq(ic, a, b)   == IF ic THEN a[1] = b[1] ELSE a = b

Str(s)  == [t |-> "s", s |-> s, d |-> 0]
Nest(d) == [t |-> "d", s |-> "", d |-> d]
Entry(k, v, r) == [k |-> k, t |-> v.t, s |-> v.s, d |-> v.d, r |-> r]

\* position after every entry whose key is <= k
UpperBound(ic, ent, k) == Cardinality({i \in 1..Len(ent) : ~KLess(ic, k, ent[i].k)})
InsertE(ic, ent, k, v, r) ==
  LET p == UpperBound(ic, ent, k) IN SubSeq(ent, 1, p) \o <<Entry(k, v, r)>> \o SubSeq(ent, p + 1, Len(ent))
Matches(ic, ent, k) == {i \in 1..Len(ent) : KEq(ic, ent[i].k, k)}
RemoveAtE(ent, i) == SubSeq(ent, 1, i - 1) \o SubSeq(ent, i + 1, Len(ent))

\* ---- ownership: dropping one reference to object o, recursively
RECURSIVE Drop(_, _)
RECURSIVE DropAll(_, _)
Drop(os, o) ==
  IF os[o].refs > 1 THEN [os EXCEPT ![o].refs = @ - 1]
  ELSE DropAll([os EXCEPT ![o].refs = 0, ![o].own = 0, ![o].ent = <<>>], SelectSeq(os[o].ent, LAMBDA e : e.t = "d"))
DropAll(os, es) == IF es = <<>> THEN os ELSE DropAll(Drop(os, es[1].d), Tail(es))

DropEntry(os, e) == IF e.t = "d" THEN Drop(os, e.d) ELSE os

\* ---- deep copy of the object o, appended to os.  The copy is the last id of the result but its
\* children come after it; returns <<os', id>>.
RECURSIVE Copy(_, _)
RECURSIVE CopyEnt(_, _, _, _)
Copy(os, o) ==
  LET id  == Len(os) + 1
      os1 == Append(os, [refs |-> 1, own |-> 0, ic |-> os[o].ic, ent |-> <<>>])
  IN  <<CopyEnt(os1, id, os[o].ent, 1), id>>
CopyEnt(os, id, ent, i) ==
  IF i > Len(ent) THEN os
  ELSE IF ent[i].t = "s" THEN CopyEnt([os EXCEPT ![id].ent = Append(@, [ent[i] EXCEPT !.r = FALSE])], id, ent, i + 1)
  ELSE LET c == Copy(os, ent[i].d)
       IN  CopyEnt([c[1] EXCEPT ![id].ent = Append(@, Entry(ent[i].k, Nest(c[2]), FALSE))], id, ent, i + 1)

\* ---- what can be observed of an object
RECURSIVE Dump(_, _)
Dump(os, o) == [i \in 1..Len(os[o].ent) |->
                 [k |-> os[o].ent[i].k, t |-> os[o].ent[i].t, s |-> os[o].ent[i].s,
                  d |-> IF os[o].ent[i].t = "d" THEN Dump(os, os[o].ent[i].d) ELSE <<>>]]

RECURSIVE Reach(_, _)
Reach(os, o) == {o} \union UNION {Reach(os, os[o].ent[i].d) : i \in {j \in 1..Len(os[o].ent) : os[o].ent[j].t = "d"}}

\* ---- operations
DInit == objs = <<>> /\ rets = <<>>

New(ic) == /\ objs' = Append(objs, [refs |-> 1, own |-> 1, ic |-> ic, ent |-> <<>>])
           /\ rets' = Append(rets, Len(objs) + 1)

\* put entry value v (already accounted for in os) in object o
Put(os, o, k, v, rep, i) ==   \* i: the matching entry that is replaced, 0 for none
  IF i = 0 THEN [os EXCEPT ![o].ent = InsertE(os[o].ic, os[o].ent, k, v, rep)]
  ELSE [DropEntry(os, os[o].ent[i]) EXCEPT ![o].ent = [os[o].ent EXCEPT ![i] = Entry(k, v, rep)]]

Victims(os, o, k, rep) == LET m == Matches(os[o].ic, os[o].ent, k) IN IF rep /\ m # {} THEN m ELSE {0}

Add(o, k, s, rep) == \E i \in Victims(objs, o, k, rep) : objs' = Put(objs, o, k, Str(s), rep, i)
\* the user's reference to c is given to the entry
AddGive(o, k, c, rep) ==
  \E i \in Victims(objs, o, k, rep) : objs' = Put([objs EXCEPT ![c].own = @ - 1], o, k, Nest(c), rep, i)
\* the entry gets a deep copy of c
AddCopy(o, k, c, rep) ==
  LET cp == Copy(objs, c) IN \E i \in Victims(objs, o, k, rep) : objs' = Put(cp[1], o, k, Nest(cp[2]), rep, i)
Remove(o, k) ==
  LET m == Matches(objs[o].ic, objs[o].ent, k) IN
    IF m = {} THEN UNCHANGED objs
    ELSE \E i \in m : objs' = [DropEntry(objs, objs[o].ent[i]) EXCEPT ![o].ent = RemoveAtE(objs[o].ent, i)]
Dup(o)  == objs' = [objs EXCEPT ![o].refs = @ + 1, ![o].own = @ + 1]
HDup(o) == LET cp == Copy(objs, o) IN objs' = [cp[1] EXCEPT ![cp[2]].own = 1] /\ rets' = Append(rets, cp[2])
Free(o) == IF objs[o].refs > 1 THEN objs' = [objs EXCEPT ![o].refs = @ - 1, ![o].own = @ - 1]
           ELSE objs' = Drop(objs, o)
\* merging adds deep copies of the other dictionary's entries, in order
RECURSIVE MergeEnt(_, _, _, _)
MergeEnt(os, o, ent, i) ==   \* the set of possible results
  IF i > Len(ent) THEN {os}
  ELSE LET c   == IF ent[i].t = "s" THEN <<os, 0>> ELSE Copy(os, ent[i].d)
           v   == IF ent[i].t = "s" THEN Str(ent[i].s) ELSE Nest(c[2])
       IN  UNION {MergeEnt(Put(c[1], o, ent[i].k, v, ent[i].r, j), o, ent, i + 1) : j \in Victims(os, o, ent[i].k, ent[i].r)}
Merge(o, p) == objs' \in MergeEnt(objs, o, objs[p].ent, 1)

\* ---- answers of the queries
GetOk(o, k, t, s)  == \* t = "s": string s was found, "n": nothing
  LET m == Matches(objs[o].ic, objs[o].ent, k) IN
    IF m = {} THEN t = "n"
    ELSE \E i \in m : IF objs[o].ent[i].t = "s" THEN t = "s" /\ s = objs[o].ent[i].s ELSE t = "n"
GetDictSet(o, k) == \* possible answers (0 for none)
  LET m == Matches(objs[o].ic, objs[o].ent, k) IN
    IF m = {} THEN {0} ELSE {IF objs[o].ent[i].t = "d" THEN objs[o].ent[i].d ELSE 0 : i \in m}
RECURSIVE RGetOk(_, _, _, _)
RGetOk(o, ks, t, s) ==
  IF Len(ks) = 1 THEN GetOk(o, ks[1], t, s)
  ELSE \E d \in GetDictSet(o, ks[1]) : IF d = 0 THEN t = "n" ELSE RGetOk(d, Tail(ks), t, s)
RECURSIVE RGetDictOk(_, _, _, _)
RGetDictOk(o, ks, t, dump) ==
  \E d \in GetDictSet(o, ks[1]) :
    IF d = 0 THEN t = "n" ELSE IF Len(ks) = 1 THEN t = "d" /\ dump = Dump(objs, d) ELSE RGetDictOk(d, Tail(ks), t, dump)

\* a balanced tree of n entries is at most 2*log2(n+1) deep
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
CostOk(n, c) == c <= 2 * (Log2(n + 1) + 1)

\* ---- properties of the design
Sorted == \A o \in Ids : \A i \in 1..Len(objs[o].ent) - 1 :
            ~KLess(objs[o].ic, objs[o].ent[i + 1].k, objs[o].ent[i].k)
Parents(o) == Cardinality({<<p, i>> \in Ids \X (1..20) : i <= Len(objs[p].ent) /\ objs[p].ent[i].t = "d" /\ objs[p].ent[i].d = o})
RefCount == \A o \in Ids : objs[o].refs = objs[o].own + Parents(o)
NoDangling == \A o \in Ids : \A i \in 1..Len(objs[o].ent) : objs[o].ent[i].t = "d" => Alive(objs[o].ent[i].d)
=============================================================================
