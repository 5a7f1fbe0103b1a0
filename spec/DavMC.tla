------------------------------- MODULE DavMC --------------------------------
(* All sequences of few requests on small trees: the tree stays a tree, and what is outside stays as it is. *)
EXTENDS Dav
CONSTANT N
VARIABLES fs, n, bad
Sh == <<B("w")>>
F(s) == [t |-> "file", d |-> s, x |-> 0]
Tree0 == (<<>> :> [t |-> "dir"]) @@ (Sh :> [t |-> "dir"]) @@ (<<B("w2")>> :> [t |-> "dir"]) @@ (<<B("w2"), B("s")>> :> F(<<1>>)) @@ (<<B("w"), B("a")>> :> F(<<2>>))
  @@ (<<B("w"), B("b")>> :> [t |-> "dir"])
Links == {B("../w2"), B("../w2/s"), B("../w2/new"), B("a"), B("/w/b")}
Paths == {B("a"), B("b"), B("b/c"), B("l"), B("l/s"), B("../w2/s"), B("b/.."), B("b/../../w2/s"), B("")}
Q0 == [m |-> "GET", p |-> <<>>, d |-> <<>>, hasdst |-> FALSE, dst |-> <<>>, keep |-> FALSE, x |-> 0, body |-> "set", depth |-> 0, denied |-> FALSE, fault |-> FALSE]
Reqs == {[Q0 EXCEPT !.m = m, !.p = p] : m \in {"MKCOL", "DELETE", "GET"}, p \in Paths}
        \union {[Q0 EXCEPT !.m = "PUT", !.p = p, !.d = <<3>>] : p \in Paths} \union {[Q0 EXCEPT !.m = "PROPPATCH", !.p = p, !.x = 1] : p \in Paths}
        \union {[Q0 EXCEPT !.m = "MOVE", !.p = p, !.hasdst = TRUE, !.dst = z, !.keep = k] : p \in Paths, z \in Paths, k \in BOOLEAN}
Init == n = 0 /\ bad = FALSE /\ \E to \in Links \union {<<>>} : fs = IF to = <<>> THEN Tree0 ELSE (<<B("w"), B("l")>> :> [t |-> "link", to |-> to]) @@ Tree0
Fix(f) == [p \in DOMAIN f |-> IF f[p].t = "file" THEN [t |-> "file", d |-> f[p].d, x |-> IF f[p].x = 2 THEN 0 ELSE f[p].x] ELSE f[p]]
Next == n < N /\ n' = n + 1 /\ DirAt(fs, Sh) /\ \E q \in Reqs : \E o \in Outcomes(fs, Sh, q) : fs' = Fix(o.fs) /\ bad' = (bad \/ (~o.ok /\ o.fs # fs) \/ Outcomes(fs, Sh, q) = {})
Spec == Init /\ [][Next]_<<fs, n, bad>>
Inv == /\ ~bad
       /\ \A p \in DOMAIN fs : p = <<>> \/ DirAt(fs, Parent(p))
       /\ \A p \in DOMAIN Tree0 : ~Under(Sh, p) => p \in DOMAIN fs /\ fs[p] = Tree0[p]
       /\ \A p \in DOMAIN fs : ~Under(Sh, p) => p \in DOMAIN Tree0
=============================================================================
