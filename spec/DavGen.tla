------------------------------- MODULE DavGen -------------------------------
(* Random trees with a share in them, and requests for it.                  *)
EXTENDS Fs, CSV, Json, IOUtils
CONSTANTS MaxNodes, MaxReqs
VARIABLES fs, cmds, n, reqs
gv == <<fs, cmds, n, reqs>>
R(S, d) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
Names == {B("a"), B("b"), B("sub"), B("x.txt"), B("secret"), B(".hid"), B("sp ace"), B("50%41"), B("aa"), B("<&>")}
Dirs == {p \in DOMAIN fs : fs[p].t = "dir"}
RECURSIVE JoinP(_)
JoinP(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE Head(p) \o <<47>> \o JoinP(Tail(p))
Rel(d) == One({Concat([i \in 1..k |-> B("../")]) \o (IF k > 0 THEN JoinP(p) ELSE p[Len(p)]) : k \in {R(0..2, d)}, p \in {R(DOMAIN fs \ {<<>>}, d)}})
Target(d) == CASE R(1..4, d) = 1 -> <<47>> \o JoinP(R(DOMAIN fs \ {<<>>}, d))
               [] R(1..4, d) = 2 -> R({B("nowhere"), B("../w2/new"), B("/o/new"), B("../o")}, d)
               [] OTHER -> Rel(d)
Node(d) == One({
  IF k <= 9 THEN [t |-> "file", k |-> R(0..4000, d), n |-> R({0, 1, 5, 40, 200, 3000}, d), x |-> R(0..1, d), m |-> R({0, 1, 20, 31, 86399, 951782400, 1700000001, 1709164800, 2000000000}, d)]
  ELSE IF k <= 14 THEN [t |-> "dir"]
  ELSE [t |-> "link", to |-> Target(d)] : k \in {R(1..17, d)}})
F(k) == [t |-> "file", k |-> k, n |-> 30, x |-> 0, m |-> 1000000000]
W == B("w")
Base == (<<>> :> [t |-> "dir"]) @@ (<<W>> :> [t |-> "dir"]) @@ (<<B("w2")>> :> [t |-> "dir"]) @@ (<<B("w2"), B("s")>> :> F(1)) @@ (<<B("o")>> :> [t |-> "dir"])
        @@ (<<B("o"), B("a")>> :> F(2)) @@ (<<W, B("a")>> :> F(3)) @@ (<<W, B("sub")>> :> [t |-> "dir"])
BaseCmds == <<[p |-> <<W>>, nd |-> [t |-> "dir"]], [p |-> <<B("w2")>>, nd |-> [t |-> "dir"]], [p |-> <<B("w2"), B("s")>>, nd |-> F(1)], [p |-> <<B("o")>>, nd |-> [t |-> "dir"]],
              [p |-> <<B("o"), B("a")>>, nd |-> F(2)], [p |-> <<W, B("a")>>, nd |-> F(3)], [p |-> <<W, B("sub")>>, nd |-> [t |-> "dir"]]>>
GInit == fs = Base /\ cmds = BaseCmds /\ n = 0 /\ reqs = <<>>
Grow == /\ n < MaxNodes /\ n' = n + 1 /\ UNCHANGED reqs
        /\ \E p \in {Append(R({q \in Dirs : Len(q) < 4 /\ q # <<>>}, n), R(Names, n))}, nd \in {Node(n)} :
           IF p \in DOMAIN fs \/ (nd.t = "link" /\ nd.to = <<>>) THEN UNCHANGED <<fs, cmds>>
           ELSE fs' = (p :> nd) @@ fs /\ cmds' = Append(cmds, [p |-> p, nd |-> nd])
\* paths in the share
In == {p \in DOMAIN fs : Len(p) > 1 /\ p[1] = W}
Ent(d) == One({JoinP(Tail(p)) : p \in {R(In, d)}})
New(d) == One({IF Len(p) = 1 THEN x ELSE JoinP(Tail(p)) \o <<47>> \o x : p \in {R({q \in Dirs : q # <<>> /\ q[1] = W}, d)}, x \in {R(Names, d)}})
Comp(d) == R({B(".."), B(".."), B("."), B(""), B("w"), B("w2"), B("o"), B("s"), B("new")} \union Names, d)
RECURSIVE Odd(_, _)
Odd(k, d) == IF k = 0 THEN <<>> ELSE Comp(d + k) \o (IF k = 1 THEN <<>> ELSE <<47>>) \o Odd(k - 1, d)
Up(d) == One({One({IF R(1..3, d) = 1 THEN <<>> ELSE JoinP(Tail(p)) \o <<47>> : p \in {R(In, d)}}) \o Concat([i \in 1..R(1..3, d) |-> B("../")]) \o JoinP(R({q \in DOMAIN fs : q # <<>>} \union {<<B("o"), B("new")>>, <<B("w2"), B("new")>>}, d))})
PathIn(d) == LET k == R(1..20, d) IN IF k <= 9 THEN Ent(d) ELSE IF k <= 14 THEN New(d) ELSE IF k <= 15 THEN Up(d) ELSE IF k <= 16 THEN <<>> ELSE IF k <= 18 THEN Ent(d) \o B("/") ELSE Odd(R(1..5, d), d)
Req(d) == [m |-> R({"GET", "HEAD", "PUT", "PUT", "PUT", "DELETE", "DELETE", "MOVE", "MOVE", "MOVE", "MOVE", "MKCOL", "MKCOL", "PROPFIND", "PROPFIND", "PROPPATCH", "OPTIONS", "LOCK"} , d),
           p |-> PathIn(d), dst |-> PathIn(d + 1000), r |-> R(0..1000000, d)]
\* the number of requests of each kind is not even: MOVE, PUT and PROPFIND have more to get wrong
M(d) == LET k == R(1..22, d) IN IF k <= 6 THEN "MOVE" ELSE IF k <= 10 THEN "PUT" ELSE IF k <= 13 THEN "PROPFIND" ELSE IF k <= 15 THEN "DELETE" ELSE IF k <= 17 THEN "MKCOL" ELSE IF k <= 19 THEN "GET" ELSE R({"HEAD", "PROPPATCH", "PROPPATCH", "OPTIONS", "POST"}, d)
Ask == /\ n = MaxNodes /\ Len(reqs) < MaxReqs /\ \E m \in {M(n + Len(reqs))} : reqs' = Append(reqs, [Req(n * 7 + Len(reqs)) EXCEPT !.m = m]) /\ UNCHANGED <<fs, cmds, n>>
GNext == Grow \/ Ask
GSpec == GInit /\ [][GNext]_gv
Emit == Len(reqs) = MaxReqs => CSVWrite("%1$s", <<ToJson([cmds |-> cmds, reqs |-> reqs])>>, IOEnv.OUT)
=============================================================================
