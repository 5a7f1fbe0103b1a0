------------------------------ MODULE RouteGen ------------------------------
(* Random routing tables and request paths.                                *)
EXTENDS Bytes, CSV, Json, IOUtils
CONSTANTS MaxReqs
VARIABLES tab, paths
Some(X) == RandomElement(X)
Chance(n) == RandomElement(1..100) <= n
Words == {B("a"), B("b"), B("ab"), B("a/b"), B("a/"), B("b/"), B("index"), B("."), B("12"), B("x"), B("")}
RECURSIVE Rep(_, _)
Rep(f(_), n) == IF n = 0 THEN <<>> ELSE <<f(n)>> \o Rep(f, n - 1)
Lit(z) == [t |-> "lit", b |-> Some(Words)]
Cls(z) == [t |-> "cls", c |-> Some({"dig", "word", "noslash", "any"}), min |-> Some(0..1)]
Flat(z) == Rep(LAMBDA i : IF Chance(55) THEN Lit(i) ELSE Cls(i), Some(0..2))
RECURSIVE Item(_)
Item(d) == LET x == Some(1..100) IN
  IF x <= 40 THEN Lit(d) ELSE IF x <= 55 THEN Cls(d)
  ELSE IF x <= 85 THEN [t |-> "grp", opt |-> Chance(40), p |-> IF d > 0 /\ Chance(25) THEN Rep(LAMBDA i : Item(d - 1), Some(1..2)) ELSE Flat(1)]
  ELSE [t |-> "alt", ps |-> Rep(LAMBDA i : IF d > 0 /\ Chance(20) THEN <<Item(d - 1)>> ELSE <<Lit(i)>>, Some(2..3))]
Many(z) == Rep(LAMBDA i : [t |-> "grp", opt |-> Chance(20), p |-> <<[t |-> "lit", b |-> B("a")]>>], Some(9..15))
Pat(z) == IF Chance(6) THEN Many(1) ELSE Rep(LAMBDA i : Item(1), Some({0, 1, 1, 2, 2, 3, 4})) \o (IF Chance(25) THEN <<[t |-> "end"]>> ELSE <<>>)
Leaf(z) == [t |-> "leaf", st |-> Some({2, 2, 2, 0, 0, -500, -501, -502})]
RECURSIVE Hnd(_), Hs(_, _)
Hs(d, n) == Rep(LAMBDA i : Hnd(d), n)
Rule(d) == IF Chance(30) THEN [re |-> FALSE, bad |-> FALSE, str |-> Some(Words), hs |-> IF Chance(80) THEN <<Leaf(1)>> ELSE <<Hnd(d)>>]
           ELSE [re |-> TRUE, bad |-> Chance(4), pat |-> Pat(1), hs |-> IF d = 0 \/ Chance(60) THEN <<Leaf(1)>> ELSE Hs(d - 1, Some({1, 1, 2}))]
Hnd(d) == LET x == Some(1..100) IN
  IF d = 0 \/ x <= 25 THEN Leaf(1)
  ELSE IF x <= 32 THEN [t |-> "static", text |-> Some({B(""), B("static text"), B("x")}), code |-> Some({200, 404, 201})]
  ELSE IF x <= 45 THEN [t |-> "path", pat |-> Pat(1), hs |-> Hs(d - 1, Some({1, 1, 2}))]
  ELSE [t |-> "url", rules |-> Rep(LAMBDA i : Rule(d - 1), Some({0, 1, 2, 3, 4, 5}))]
Path(z) == IF Chance(8) THEN <<47>> \o Concat(Rep(LAMBDA i : B("a"), Some(9..15))) ELSE <<47>> \o Concat(Rep(LAMBDA i : Some(Words \union {B("/"), B("%2f"), B("9"), B("a/b/12"), B("ab/x"), B("%61")}), Some(0..4)))
Query(z) == IF Chance(70) THEN <<>> ELSE Some({B("?q=1"), B("?1=mine"), B("?a=b&2=y&1=z"), B("?")})
GInit == tab = <<>> /\ paths = <<>>
GNext == IF tab = <<>> THEN tab' = <<Hs(3, Some({0, 1, 1, 1, 2, 3}))>> /\ UNCHANGED paths
         ELSE Len(paths) < MaxReqs /\ paths' = Append(paths, Path(1) \o Query(1)) /\ UNCHANGED tab
GSpec == GInit /\ [][GNext]_<<tab, paths>>
Emit == Len(paths) = MaxReqs => CSVWrite("%1$s", <<ToJson([tab |-> tab[1], paths |-> paths])>>, IOEnv.OUT)
=============================================================================
