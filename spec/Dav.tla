-------------------------------- MODULE Dav ---------------------------------
(* A WebDAV share of a file tree: what each method may do to the tree.      *)
(* Nodes: [t |-> "dir"] | [t |-> "file", d |-> bytes, x |-> executable] | [t |-> "link", to |-> bytes].     *)
EXTENDS Fs
\* the directory entry a path names (the last name is not followed) in the share sh
RECURSIVE Strip(_)
Strip(cs) == IF cs # <<>> /\ cs[Len(cs)] \in {<<>>, Dot} THEN Strip(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Entry(fs, sh, txt) ==
  LET cs == Strip(Split(txt, 47)) IN
  IF cs = <<>> THEN [ok |-> TRUE, p |-> sh]
  ELSE IF cs[Len(cs)] = DotDot THEN Res(fs, sh, cs, 20)
  ELSE LET r == Res(fs, sh, SubSeq(cs, 1, Len(cs) - 1), 20) IN
       IF r.ok /\ fs[r.p].t = "dir" THEN [ok |-> TRUE, p |-> Append(r.p, cs[Len(cs)])] ELSE NoEnt
Slash(txt) == LET cs == Split(txt, 47) IN cs[Len(cs)] \in {<<>>, Dot}
\* a path with no tricks in it: what it asks for has to be done
Plain(fs, sh, txt) ==
  LET cs == Strip(Split(txt, 47)) real == SelectSeq(cs, LAMBDA c : c \notin {<<>>, Dot}) e == Entry(fs, sh, txt) IN
  /\ Len(txt) < 400 /\ (\A i \in 1..Len(cs) : cs[i] # DotDot /\ Len(cs[i]) < 200)
  /\ e.ok /\ e.p = sh \o real
  /\ (e.p \in DOMAIN fs => fs[e.p].t # "link")
  /\ (Slash(txt) => e.p \in DOMAIN fs /\ fs[e.p].t = "dir")
Sub(fs, p) == {q \in DOMAIN fs : Under(p, q)}
Without(fs, S) == [q \in DOMAIN fs \ S |-> fs[q]]
Move(fs, a, b) == LET base == Without(fs, Sub(fs, a) \union Sub(fs, b)) moved == {b \o SubSeq(q, Len(a) + 1, Len(q)) : q \in Sub(fs, a)} IN
  [q \in moved |-> fs[a \o SubSeq(q, Len(b) + 1, Len(q))]] @@ base
DirAt(fs, p) == p \in DOMAIN fs /\ fs[p].t = "dir"
\* names of a path that are links are followed to their end; where that is outside nothing may be done to it
Target(fs, sh, txt) == Resolve(fs, sh, txt)
Fail(fs) == [fs |-> fs, ok |-> FALSE]
Done(fs) == [fs |-> fs, ok |-> TRUE]
ParentIn(fs, sh, e) == e.ok /\ e.p # sh /\ Under(sh, e.p) /\ DirAt(fs, Parent(e.p))
\* outcomes: set of [fs after, ok]; a request q has m, p (path in the share), and what its method takes
Put(fs, sh, q) ==
  LET e == Entry(fs, sh, q.p) r == Target(fs, sh, q.p) new == [t |-> "file", d |-> q.d, x |-> 2] IN
  (IF ParentIn(fs, sh, e) /\ ~DirAt(fs, e.p) THEN {Done((e.p :> new) @@ fs)} ELSE {})
  \union (IF r.ok /\ Under(sh, r.p) /\ fs[r.p].t = "file" THEN {Done((r.p :> new) @@ fs)} ELSE {})
MkCol(fs, sh, q) == LET e == Entry(fs, sh, q.p) IN IF ParentIn(fs, sh, e) /\ e.p \notin DOMAIN fs THEN {Done((e.p :> [t |-> "dir"]) @@ fs)} ELSE {}
Delete(fs, sh, q) == LET e == Entry(fs, sh, q.p) IN IF e.ok /\ e.p \in DOMAIN fs /\ Under(sh, e.p) THEN {Done(Without(fs, Sub(fs, e.p)))} ELSE {}
\* q.dst: path in the share, <<>> with q.hasdst FALSE when there is none or it is elsewhere
MoveTo(fs, sh, q) ==
  IF ~q.hasdst THEN {}
  ELSE LET a == Entry(fs, sh, q.p) b == Entry(fs, sh, q.dst) IN
       IF a.ok /\ b.ok /\ a.p = b.p /\ a.p \in DOMAIN fs /\ ~q.keep THEN {Done(fs)}
       ELSE IF a.ok /\ a.p \in DOMAIN fs /\ a.p # sh /\ Under(sh, a.p) /\ ParentIn(fs, sh, b) /\ ~(Under(a.p, b.p) /\ a.p # b.p) /\ ~Under(b.p, Parent(a.p)) /\ ~(q.keep /\ b.p \in DOMAIN fs)
       THEN {Done(Move(fs, a.p, b.p))} ELSE {}
SetX(fs, sh, q) == LET r == Target(fs, sh, q.p) IN
  IF r.ok /\ Under(sh, r.p) THEN {Done(IF fs[r.p].t = "file" THEN [fs EXCEPT ![r.p].x = q.x] ELSE fs)} ELSE {}
Look(fs, sh, q) == LET r == Target(fs, sh, q.p) IN IF r.ok /\ Under(sh, r.p) THEN {Done(fs)} ELSE {}
Doable(fs, sh, q) ==
  IF q.denied THEN {}
  ELSE CASE q.m = "PUT" -> Put(fs, sh, q)
         [] q.m = "MKCOL" -> MkCol(fs, sh, q)
         [] q.m = "DELETE" -> Delete(fs, sh, q)
         [] q.m = "MOVE" -> MoveTo(fs, sh, q)
         [] q.m = "PROPPATCH" -> IF q.body = "set" THEN SetX(fs, sh, q) ELSE {}
         [] q.m = "PROPFIND" -> Look(fs, sh, q)
         [] q.m \in {"GET", "HEAD"} -> LET r == Target(fs, sh, q.p) IN IF r.ok /\ fs[r.p].t = "file" THEN Look(fs, sh, q) ELSE {}
         [] q.m = "OPTIONS" -> {Done(fs)}
         [] OTHER -> {}
\* what the method has to do, and not only may
Must(fs, sh, q) ==
  /\ Doable(fs, sh, q) # {} /\ ~q.fault /\ Plain(fs, sh, q.p)
  /\ LET e == Entry(fs, sh, q.p).p IN
     CASE q.m = "DELETE" -> e # sh /\ Sub(fs, e) = {e}
       [] q.m = "MOVE" -> /\ Plain(fs, sh, q.dst)
                          /\ LET b == Entry(fs, sh, q.dst).p IN e # b /\ (b \notin DOMAIN fs \/ (fs[b].t = "file" /\ fs[e].t = "file"))
       [] q.m = "PUT" -> TRUE
       [] q.m = "PROPFIND" -> q.depth \in {0, 1} /\ q.body \in {"props", "all", "none"}
       [] OTHER -> TRUE
Outcomes(fs, sh, q) == Doable(fs, sh, q) \union (IF Must(fs, sh, q) THEN {} ELSE {Fail(fs)})
=============================================================================
