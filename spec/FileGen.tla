------------------------------ MODULE FileGen ------------------------------
(* Random file trees, exports and requests for them.                        *)
EXTENDS Fs, CSV, Json, IOUtils
CONSTANTS MaxNodes, MaxReqs, Mode     \* Mode: "export" | "file"
VARIABLES fs, cmds, n, base, reqs, ph
gv == <<fs, cmds, n, base, reqs, ph>>
R(S, d) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE         \* values inside a set are computed once
Names == {B("a"), B("b.txt"), B("c.html"), B("www"), B("www2"), B("sub"), B("secret"), B("ww"), B("x.tar.gz"), B("img.JPG"), B("noext"), B(".hid"), B("README.md"), B("sp ace.css")}
Sizes == IF Mode = "export" THEN {0, 1, 7, 40, 100, 1500, 3000} ELSE {0, 1, 2, 10, 63, 64, 65, 1499, 1500, 1501, 2999, 3000, 4045, 4046, 4047, 5546, 8091, 8092, 8093, 16383, 16384, 16385, 20000, 50000}
Dirs == {p \in DOMAIN fs : fs[p].t = "dir"}
RECURSIVE JoinP(_)
JoinP(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE Head(p) \o <<47>> \o JoinP(Tail(p))
Rel(d) == One({Concat([i \in 1..k |-> B("../")]) \o (IF k > 0 THEN JoinP(p) ELSE p[Len(p)]) : k \in {R(0..2, d)}, p \in {R(DOMAIN fs \ {<<>>}, d)}})
Target(d) == CASE R(1..4, d) = 1 -> <<47>> \o JoinP(R(DOMAIN fs, d))
               [] R(1..4, d) = 2 -> B("nowhere")
               [] OTHER -> Rel(d)
Node(d) == One({
  IF k <= 10 THEN [t |-> "file", id |-> 10 + n, size |-> R(Sizes, d), mtime |-> R({1, 1000000000, 1700000001, 1700000002}, d)]
  ELSE IF k <= 14 THEN [t |-> "dir"]
  ELSE IF k <= 19 THEN [t |-> "link", to |-> Target(d)]
  ELSE [t |-> "fifo"] : k \in {R(1..20, d)}})
Base == (<<>> :> [t |-> "dir"]) @@ (<<B("www")>> :> [t |-> "dir"]) @@ (<<B("www-private")>> :> [t |-> "dir"])
  @@ (<<B("www-private"), B("s")>> :> [t |-> "file", id |-> 1, size |-> 70, mtime |-> 5]) @@ (<<B("secret")>> :> [t |-> "file", id |-> 2, size |-> 90, mtime |-> 5])
  @@ (<<B("www"), B("index.html")>> :> [t |-> "file", id |-> 3, size |-> 80, mtime |-> 7])
BaseCmds == << [p |-> <<B("www")>>, nd |-> [t |-> "dir"]], [p |-> <<B("www-private")>>, nd |-> [t |-> "dir"]],
  [p |-> <<B("www-private"), B("s")>>, nd |-> Base[<<B("www-private"), B("s")>>]], [p |-> <<B("secret")>>, nd |-> Base[<<B("secret")>>]],
  [p |-> <<B("www"), B("index.html")>>, nd |-> Base[<<B("www"), B("index.html")>>]] >>
GInit == fs = Base /\ cmds = BaseCmds /\ n = 0 /\ base = <<>> /\ reqs = <<>> /\ ph = "tree"
Grow == /\ ph = "tree" /\ n < MaxNodes /\ n' = n + 1
        /\ \E p \in {Append(R({q \in Dirs : Len(q) < 4 /\ (q = <<>> => R(1..3, n) = 1)} \union {<<B("www")>>}, n), R(Names, n))}, nd \in {Node(n)} :
           IF p \in DOMAIN fs \/ (nd.t = "link" /\ nd.to = <<>>) THEN UNCHANGED <<fs, cmds>>
           ELSE fs' = (p :> nd) @@ fs /\ cmds' = Append(cmds, [p |-> p, nd |-> nd])
        /\ UNCHANGED <<base, reqs, ph>>
Files == {p \in DOMAIN fs : fs[p].t = "file"}
Pick == /\ ph = "tree" /\ n >= MaxNodes /\ ph' = "req"
        /\ base' = IF Mode = "file" THEN R(Files \ {<<B("secret")>>}, n)
                   ELSE IF R(1..10, n) <= 7 THEN <<B("www")>> ELSE R({<<B("www")>>} \union {p \in DOMAIN fs : p # <<>> /\ fs[p].t \in {"dir", "file", "link"} /\ LET r == Res(fs, <<>>, p, 20) IN r.ok /\ fs[r.p].t \in {"dir", "file"}}, n)
        /\ UNCHANGED <<fs, cmds, n, reqs>>
\* requests: names of the tree, dots, and the same percent-encoded
Hex(k) == IF k < 10 THEN 48 + k ELSE 55 + k
Enc(b) == <<37, Hex(b \div 16), Hex(b % 16)>>
EncSome(s0, d) == One({Concat([i \in 1..Len(s) |-> IF s[i] \in {32, 37, 63, 35} \/ R(1..12, d + i) = 1 THEN Enc(s[i]) ELSE <<s[i]>>]) : s \in {s0}})
AllNames == {p[Len(p)] : p \in DOMAIN fs \ {<<>>}}
Comp(d) == CASE R(1..8, d) <= 3 -> R(AllNames, d)
             [] R(1..8, d) = 1 -> R({B("."), B(""), B("nothing"), B("..."), B("WWW"), B("-private"), B("~")}, d)
             [] R(1..3, d) = 1 -> R({B("%2e%2e"), B(".%2E"), B("..%2f.."), B("%2e%2e%2f"), B("..%5c"), B("..%00")}, d)
             [] R(1..2, d) = 1 -> B("..")
             [] OTHER -> R(AllNames, d)
RECURSIVE Path(_, _)
Path(k, d) == IF k = 0 THEN <<>> ELSE B("/") \o One({IF R(1..4, d + k) = 1 /\ ~HasByte(c, 37) THEN EncSome(c, d) ELSE IF HasByte(c, 32) THEN EncSome(c, d) ELSE c : c \in {Comp(d * 31 + k)}}) \o Path(k - 1, d)
\* straight to something of the tree
RealBase == Res(fs, <<>>, base, 20).p
Direct(d) == LET S == {p \in DOMAIN fs : Len(p) > Len(base) /\ SubSeq(p, 1, Len(base)) = base} IN
  IF S = {} THEN B("/") ELSE One({B("/") \o EncSome(JoinP(SubSeq(p, Len(base) + 1, Len(p))), d) \o (IF R(1..6, d) = 1 THEN B("/") ELSE <<>>) : p \in {R(S, d)}})
Up(d) == Concat([i \in 1..R(1..3, d) |-> B("/..")]) \o B("/") \o EncSome(JoinP(R(DOMAIN fs \ {<<>>}, d)), d)
ReqPath(d) == LET k == R(1..10, d) IN IF k <= 3 THEN Direct(d) ELSE IF k <= 5 THEN Up(d) ELSE IF k = 6 THEN B("/") ELSE Path(R(1..5, d), d)
\* ranges around the sizes
Num(d) == One({DecBytes(Max2(0, s + R({0, 1, -1, -2, 5}, d))) : s \in {R(Sizes, d)}})
Range(d) == LET k == R(1..16, d) IN
  IF k <= 7 THEN B("bytes=") \o Num(d) \o B("-") \o Num(d + 1)
  ELSE IF k <= 10 THEN B("bytes=") \o Num(d) \o B("-")
  ELSE IF k <= 12 THEN B("bytes=-") \o Num(d)
  ELSE R({B("bytes=0-0"), B("bytes=-"), B("bytes=abc"), B("bytes=0-1,3-4"), B("items=0-1"), B("bytes=5-2"), B("bytes=0-99999999999999"), B("bytes=99999999999-"), B("bytes=a-b"), B("bytes=1-2x"), B("bytes= 1-2"), B("bytes=0-"), B("bytes=") \o [i \in 1..80 |-> 48] \o B("1-9"), B("bytes=-1")}, d)
Req(d) == [m |-> R({"GET", "GET", "GET", "GET", "HEAD", "HEAD", "OPTIONS", "DELETE"}, d), v |-> R({"1.1", "1.1", "1.0"}, d), path |-> IF Mode = "file" THEN B("/p") ELSE ReqPath(d),
           range |-> IF R(1..10, d) <= (IF Mode = "file" THEN 7 ELSE 2) THEN Range(d) ELSE <<>>, inm |-> R({0, 0, 0, 1, 1, 2, 3, 4, 5}, d), touch |-> R(1..8, d), k |-> R(0..50, d)]
Ask == /\ ph = "req" /\ Len(reqs) < MaxReqs /\ reqs' = Append(reqs, Req(n * 7 + Len(reqs))) /\ UNCHANGED <<fs, cmds, n, base, ph>>
GNext == Grow \/ Pick \/ Ask
GSpec == GInit /\ [][GNext]_gv
Emit == Len(reqs) = MaxReqs => CSVWrite("%1$s", <<ToJson([cmds |-> cmds, base |-> base, reqs |-> reqs])>>, IOEnv.OUT)
=============================================================================
