-------------------------------- MODULE WsGen --------------------------------
(* Random websocket connections: the client's frames, the application's operations, sizes of reads and writes. *)
EXTENDS Integers, Sequences, TLC, CSV, Json, IOUtils
CONSTANTS MaxFrames, Mode       \* "data" or "ctl"
VARIABLES fr, gs, done
Some(X) == RandomElement(X)
Chance(n) == RandomElement(1..100) <= n
RECURSIVE Rep(_, _)
Rep(f(_), n) == IF n = 0 THEN <<>> ELSE <<f(n)>> \o Rep(f, n - 1)
Small == {0, 1, 2, 3, 4, 5, 7, 10}
Sizes == IF Mode = "data" THEN Small \union {124, 125, 126, 127, 128, 200, 1023, 1024, 1025, 2048} ELSE Small \union {125, 126}
Op(z) == LET x == Some(1..100) IN IF Mode = "data" THEN (IF x <= 45 THEN 1 ELSE IF x <= 75 THEN 2 ELSE IF x <= 90 THEN 0 ELSE IF x <= 97 THEN 9 ELSE 10)
                            ELSE (IF x <= 25 THEN 1 ELSE IF x <= 35 THEN 2 ELSE IF x <= 42 THEN 0 ELSE IF x <= 80 THEN 9 ELSE IF x <= 90 THEN 10 ELSE 8)
Mk(o, n) == [op |-> o, n |-> n, fin |-> (IF o >= 8 THEN ~Chance(2) ELSE Chance(75)), enc |-> IF Chance(80) THEN 0 ELSE Some({1, 2}), mask |-> Chance(75), b |-> Some(0..255), s |-> Some(0..6)]
Len8(o) == IF o = 8 THEN (IF Chance(70) THEN Some({2, 2, 2, 10, 125}) ELSE Some({0, 1, 126})) ELSE IF o >= 8 THEN (IF Chance(94) THEN Some({0, 1, 2, 3, 5, 60, 124, 125}) ELSE Some({126, 200})) ELSE Some(Sizes)
Frame(z) == CHOOSE f \in {Mk(o, Len8(o)) : o \in {Op(z)}} : TRUE
AppOp(z) == LET x == Some(1..100) IN
  IF x <= 35 THEN [t |-> "R"] ELSE IF x <= 60 THEN [t |-> "r", n |-> Some(Small \union {125, 300})]
  ELSE IF x <= 85 THEN [t |-> "w", op |-> Some({-1, 1, 2}), n |-> Some(Sizes), b |-> Some(0..255), s |-> Some(0..6)]
  ELSE IF x <= 90 THEN [t |-> "p", op |-> Some({1, 2}), n |-> Some({0, 1, 50, 510, 511, 512, 513, 600}), b |-> Some(33..120), s |-> 0]
  ELSE IF x <= 95 THEN [t |-> "u"] ELSE [t |-> "cb", k |-> Some({0, 1})]
Group(z) == LET bye == Chance(IF Mode = "ctl" THEN 12 ELSE 4) IN
  CHOOSE g \in {[st |-> st, ops |-> Rep(AppOp, Some(0..3)) \o (IF st # 0 /\ Chance(40) THEN <<[t |-> "x"]>> ELSE IF Chance(2) THEN <<[t |-> "nocb"]>> ELSE <<>>)]
                : st \in {IF Chance(IF Mode = "ctl" THEN 12 ELSE 4) THEN Some({-2, -2, -500, 2}) ELSE 0}} : TRUE
GInit == fr = <<>> /\ gs = <<>> /\ done = FALSE
GNext == \/ ~done /\ Len(fr) < MaxFrames /\ fr' = Append(fr, Frame(1)) /\ UNCHANGED <<gs, done>>
         \/ ~done /\ Len(fr) = MaxFrames /\ gs' = Rep(Group, Some(0..8)) /\ done' = TRUE /\ UNCHANGED fr
GSpec == GInit /\ [][GNext]_<<fr, gs, done>>
HOps(z) == Rep(AppOp, Some({0, 0, 0, 1, 2}))
Emit == done => CSVWrite("%1$s", <<ToJson([fr |-> fr, gs |-> gs,
   h |-> SelectSeq(HOps(1), LAMBDA o : o.t \in {"w", "p", "u", "cb"}),
   rs |-> (IF Chance(30) THEN <<>> ELSE IF Chance(30) THEN <<1>> ELSE Rep(LAMBDA i : Some({1, 1, 2, 3, 5, 8, 100}), Some(1..30))),
   ws |-> (IF Chance(70) THEN <<>> ELSE IF Chance(60) THEN Rep(LAMBDA i : Some({1, 2, 3, 7, 100, 1000}), Some(1..12)) ELSE Rep(LAMBDA i : IF i = 1 THEN -1 ELSE Some({3, 100, 1000, 10000}), Some(1..6))),
   err |-> Chance(20), cut |-> (IF Chance(30) THEN Some(1..400) ELSE 0), nocb |-> Chance(3)])>>, IOEnv.OUT)
=============================================================================
