------------------------------ MODULE ConcGen ------------------------------
(* Random sets of requests that run at once. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS NTh, Prof
VARIABLES th, n
vars == <<th, n>>
R(S) == RandomElement(S)
Val(x) == [j \in 1..R({1, 1, 2, 3}) |-> [k |-> R({"a", "b", "c"}), v |-> R(1..99)]]
Op(x) == IF x <= 26 THEN [t |-> "S", kv |-> Val(x), k |-> "", n |-> 0] ELSE IF x <= 46 THEN [t |-> "R", kv |-> <<>>, k |-> "", n |-> 0]
  ELSE IF x <= 62 THEN [t |-> "D", kv |-> <<>>, k |-> R({"a", "b", "c"}), n |-> 0] ELSE IF x <= 70 THEN [t |-> "F", kv |-> <<>>, k |-> "", n |-> 0]
  ELSE IF x <= 74 THEN [t |-> "H", kv |-> <<>>, k |-> "", n |-> 0] ELSE IF x <= 78 THEN [t |-> "h", kv |-> <<>>, k |-> "", n |-> 0]
  ELSE IF x <= 83 THEN [t |-> "G", kv |-> Val(x), k |-> "", n |-> 0] ELSE IF x <= 87 THEN [t |-> "g", kv |-> <<>>, k |-> "", n |-> 0]
  ELSE IF x <= 89 THEN [t |-> "W", kv |-> <<>>, k |-> "", n |-> R(1..9)] ELSE IF x <= 91 THEN [t |-> "Y", kv |-> <<>>, k |-> "", n |-> R({1, 10, 999})] ELSE IF x <= 96 THEN [t |-> "M", kv |-> <<>>, k |-> R({"x.html", "y.png", "z.css", "w.none"}), n |-> 0]
  ELSE [t |-> "C", kv |-> <<>>, k |-> "", n |-> R({60, 3600, 86400, 31536000})]
\* a few short requests on one session; on the clock; on files
Short(x) == IF x <= 40 THEN [t |-> "S", kv |-> <<[k |-> R({"a", "b"}), v |-> R(1..99)]>>, k |-> "", n |-> 0] ELSE IF x <= 75 THEN [t |-> "D", kv |-> <<>>, k |-> R({"a", "a", "b"}), n |-> 0]
  ELSE IF x <= 90 THEN [t |-> "R", kv |-> <<>>, k |-> "", n |-> 0] ELSE [t |-> "F", kv |-> <<>>, k |-> "", n |-> 0]
Ends(x) == [kind |-> "E", slot |-> R({0, 0, 0, 1}), close |-> R({0, 1}), fill |-> 0, file |-> "m", ops |-> [j \in 1..R({1, 1, 2}) |-> Short(R(1..100))]]
Clock(x) == [kind |-> "E", slot |-> -1, close |-> R({0, 1}), fill |-> 0, file |-> "m", ops |-> [j \in 1..R({0, 1}) |-> [t |-> "C", kv |-> <<>>, k |-> "", n |-> R({60, 3600, 86400, 31536000})]]]
Files(x) == [kind |-> R({"f", "l", "l"}), slot |-> -1, close |-> R({0, 1}), fill |-> 0, file |-> R({"m", "n", "o"}), ops |-> <<>>]
Door(x) == [kind |-> R({"A", "A", "a", "E"}), slot |-> 3, close |-> R({0, 1}), fill |-> 0, file |-> "m", ops |-> [j \in 1..R({0, 1, 1}) |-> Short(R(1..90))]]
Mixed(x) == [kind |-> IF x <= 60 THEN "E" ELSE IF x <= 85 THEN "P" ELSE IF x <= 94 THEN "f" ELSE "l", slot |-> R({-1, 0, 0, 0, 1, 1, 2, 3}), close |-> R({0, 0, 1}), fill |-> R({0, 1, 8, 30, 150}), file |-> R({"m", "n", "o"}),
  ops |-> [j \in 1..R({0, 1, 2, 2, 3, 4}) |-> Op(R(1..100))]]
Req(x) == CASE Prof = "mix" -> Mixed(x) [] Prof = "ends" -> Ends(x) [] Prof = "clock" -> Clock(x) [] Prof = "door" -> Door(x) [] Prof = "files" -> Files(x)
GInit == th = <<>> /\ n = 0
GNext == n < NTh /\ n' = n + 1 /\ th' = Append(th, [j \in 1..R(1..3) |-> Req(R(1..100))])
GSpec == GInit /\ [][GNext]_vars
Emit == (n = NTh) => CSVWrite("%1$s", <<ToJson([th |-> th, slots |-> <<IF Prof = "ends" THEN R({"", "a"}) ELSE R({"", "a", "ab"}), R({"", "", "b"}), "c", "c">>, drift |-> IF Prof = "clock" THEN R({50, 200}) ELSE R({0, 0, 100, 400}), calm |-> R({0, 1, 1, 1}), cold |-> Prof = "mix" /\ R(1..10) = 1])>>, IOEnv.OUT)
=============================================================================
