------------------------------- MODULE FileMC -------------------------------
(* The definitions of Fs and FileResp over all small cases: what is decided by comparing text (the exported   *)
(* directory followed by a separator is the beginning of the resolved path) is what containment means, and    *)
(* ranges stay inside the file and are all of it together.                                                    *)
EXTENDS FileResp
VARIABLES fs, req, n
Nm == {B("a"), B("ab")}
Paths == {<<x>> : x \in Nm} \union {<<x, y>> : x \in Nm, y \in Nm}
Nodes == {[t |-> "dir"], [t |-> "file", id |-> 1, size |-> 1, mtime |-> 0]} \union {[t |-> "link", to |-> s] : s \in {B(".."), B("/a"), B("../ab"), B("ab")}}
RECURSIVE Txt(_)
Txt(p) == IF p = <<>> THEN <<>> ELSE <<47>> \o Head(p) \o Txt(Tail(p))
Init == fs = (<<>> :> [t |-> "dir"]) /\ req = <<>> /\ n = 0
Add == n < 3 /\ n' = n + 1 /\ UNCHANGED req /\ \E p \in Paths, nd \in Nodes :
         /\ p \notin DOMAIN fs /\ Parent(p) \in DOMAIN fs /\ fs[Parent(p)].t = "dir" /\ fs' = (p :> nd) @@ fs
Comps == {B("a"), B("ab"), B("..")}
Ask == Len(req) < 3 /\ \E c \in Comps : req' = Append(req, c) /\ UNCHANGED <<fs, n>>
Next == Add \/ Ask
Spec == Init /\ [][Next]_<<fs, req, n>>
Dir == <<B("a")>>
Prefix(d, t) == Len(t) >= Len(d) /\ SubSeq(t, 1, Len(d)) = d /\ (Len(t) = Len(d) \/ t[Len(d) + 1] = 47)
Contained == (Dir \in DOMAIN fs /\ fs[Dir].t = "dir") =>
  LET r == Res(fs, Dir, req, 20) IN r.ok =>
    /\ fs[r.p].t # "link"                                       \* resolved
    /\ (Under(Dir, r.p) <=> Prefix(Txt(Dir), Txt(r.p)))
    /\ (\A i \in 1..Len(req) : req[i] # DotDot) /\ (\A p \in DOMAIN fs : fs[p].t # "link") => Under(Dir, r.p)
Q(s) == [h |-> <<[k |-> B("Range"), v |-> B("bytes=") \o s]>>]
Texts == {DecBytes(a) \o <<45>> \o DecBytes(b) : a \in 0..5, b \in 0..5} \union {DecBytes(a) \o <<45>> : a \in 0..5} \union {<<45>> \o DecBytes(b) : b \in 0..5} \union {<<45>>, <<48>>, <<>>}
ASSUME \A s \in Texts, z \in 0..4 : LET g == RangeOf(Q(s), z) IN g.k = "part" => g.a <= g.b /\ g.b < z /\ g.a >= 0
ASSUME \A z \in 1..4, a \in 1..3 : a < z => LET x == RangeOf(Q(<<48, 45>> \o DecBytes(a - 1)), z) y == RangeOf(Q(DecBytes(a) \o <<45>>), z) w == RangeOf(Q(<<45>> \o DecBytes(z - a)), z) IN
          x.b + 1 = y.a /\ x.a = 0 /\ y.b = z - 1 /\ w = y
=============================================================================
