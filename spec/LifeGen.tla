------------------------------ MODULE LifeGen ------------------------------
(* Random lives of servers: several listenings with clients and concurrent actors, each stopped in some way. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS NE
VARIABLES ep, n
R(S) == RandomElement(S)
Cl == R(0..5)
Op(x) == IF x <= 25 THEN [t |-> "C", j |-> Cl, a |-> R({0, 0, 1, 2}), h |-> ""] ELSE IF x <= 65 THEN [t |-> "Q", j |-> Cl, a |-> -1, h |-> R({"n", "n", "n", "c", "z", "zc"})] ELSE IF x <= 70 THEN [t |-> "q", j |-> Cl, a |-> -1, h |-> "n"]
  ELSE IF x <= 80 THEN [t |-> "X", j |-> Cl, a |-> -1, h |-> ""] ELSE IF x <= 90 THEN [t |-> "P", j |-> R(0..2), a |-> -1, h |-> ""] ELSE [t |-> "Z", j |-> R({1, 300, 2000}), a |-> -1, h |-> ""]
Stop == [t |-> "S", j |-> 0, a |-> -1, h |-> ""]
Start(k) == [j \in 1..(2 * k) |-> IF j % 2 = 1 THEN [t |-> "C", j |-> (j - 1) \div 2, a |-> R({0, 0, 1, 2}), h |-> ""] ELSE [t |-> "Q", j |-> (j - 2) \div 2, a |-> -1, h |-> R({"n", "n", "z", "c"})]]
Ops(k) == [j \in 1..k |-> Op(R(1..100))]
Put(q, k) == IF k > Len(q) THEN Append(q, Stop) ELSE SubSeq(q, 1, k - 1) \o <<Stop>> \o SubSeq(q, k, Len(q))
Stopping(q) == Put(q, R(1..(Len(q) + 1)))
\* how it is stopped: c at rest, a by one of the actors, h by a handler, t by two actors, n not before the end
Epoch(x) == [pre |-> [j \in 1..R({0, 0, 1, 2}) |-> IF R(1..2) = 1 THEN Stopping(Ops(R(0..2))) ELSE Ops(R(1..3))], calm |-> R(1..2) = 1,
             ph |-> [j \in 1..R(0..2) |-> [actors |-> <<Start(R(0..3)) \o Ops(R(0..3))>> \o [k \in 1..R(0..2) |-> Ops(R(1..4))], sleep |-> R({0, 0, 0, 1000, 12000})]],
             by |-> R({"c", "a", "a", "h", "h", "t", "n"}), last |-> [k \in 1..R(1..3) |-> Ops(R(1..3))], hp |-> R({0, 0, 1, 2}), hz |-> R({"s", "s", "zs", "sz", "ss"}), hold |-> R({-1, -1, -1, 0, 1}), rel |-> R(1..3) = 1]
Cfg(x) == [mode |-> R({1, 3, 3, 32, 32, 4, 36, 36}), det |-> R({0, 8}), th |-> R({0, 1, 2, 3}), tmo |-> R({1000, 5000}), lps |-> [j \in 1..R(1..3) |-> R({0, 0, 0, 0, 1, 2, 3})]]
vars == <<ep, n>>
GInit == ep = <<>> /\ n = 0
GNext == n < NE /\ n' = n + 1 /\ ep' = Append(ep, Epoch(n))
GSpec == GInit /\ [][GNext]_vars
Emit == (n = NE) => CSVWrite("%1$s", <<ToJson([ep |-> ep, cfg |-> Cfg(0)])>>, IOEnv.OUT)
=============================================================================
