----------------------------- MODULE PollerGen -----------------------------
(* Random programs for pollers: descriptors with scripted callbacks, then phases of concurrent actors. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS NF, NP, Timed
VARIABLES fds, ph, n
vars == <<fds, ph, n>>
R(S) == RandomElement(S)
Op(x) == IF x <= 45 THEN [t |-> "W", i |-> R(0..(NF - 1))] ELSE IF x <= 60 THEN [t |-> "A", i |-> R(0..(NF - 1))] ELSE IF x <= 72 THEN [t |-> "R", i |-> R(0..(NF - 1))]
  ELSE IF x <= 80 THEN [t |-> "H", i |-> R(0..(NF - 1))] ELSE IF Timed THEN [t |-> "Z", i |-> R({100, 600, 1000, 1500, 2900})] ELSE [t |-> "W", i |-> R(0..(NF - 1))]
Ops(k) == [j \in 1..k |-> Op(R(1..100))]
\* descriptors that come and go one after the other, so that their numbers are soon used again
Chain(a, k) == [j \in 1..(3 * k) |-> IF j % 3 = 1 THEN [t |-> "A", i |-> (a + (j \div 3)) % NF] ELSE IF j % 3 = 2 THEN [t |-> "W", i |-> (a + (j \div 3)) % NF] ELSE [t |-> R({"R", "R", "H"}), i |-> (a + (j \div 3) - 1) % NF]]
Few == R({0, 0, 0, 1, 1, 2})
\* one invocation of a callback
Act(x) == [rd |-> R({"1", "1", "a", "n"}), ops |-> Ops(Few), no |-> R(1..6) = 1]
Fd(x) == [k |-> R({0, 0, 1}), tmo |-> IF Timed THEN R({-1, -2000, 1000, 1000, 2000, 3000, 5000}) ELSE R({-1, -1, -1, 2000}), sd |-> R(1..8) # 1, ty |-> R({1, 1, 1, 2, 3}), acts |-> [j \in 1..R({0, 1, 2, 4}) |-> Act(j)]]
Phase(x) == [actors |-> [j \in 1..R(1..3) |-> IF NF > 12 /\ j # 3 THEN Chain(R(0..(NF - 1)), R(2..6)) ELSE Ops(R(1..5))], sleep |-> IF Timed THEN R({0, 200, 500, 900, 1000, 1100, 2000, 2500, 4000, 7000}) ELSE R({0, 0, 0, 3000}), restart |-> R(1..5) = 1, by |-> R(1..3)]
GInit == fds = <<>> /\ ph = <<>> /\ n = 0
GNext == /\ n < NF + NP /\ n' = n + 1
         /\ IF n < NF THEN fds' = Append(fds, Fd(n)) /\ UNCHANGED ph ELSE ph' = Append(ph, Phase(n)) /\ UNCHANGED fds
GSpec == GInit /\ [][GNext]_vars
Emit == (n = NF + NP) => CSVWrite("%1$s", <<ToJson([fds |-> fds, ph |-> ph, th |-> <<R(1..3), R(1..2)>>, pollers |-> R({1, 1, 2}), q |-> R({1, 1, 3}), init |-> R(0..(IF NF > 12 THEN 3 ELSE NF))])>>, IOEnv.OUT)
=============================================================================
