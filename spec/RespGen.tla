------------------------------ MODULE RespGen ------------------------------
(* Random programs of response operations, and whether what a handler did can be told from the bytes. *)
EXTENDS Integers, Sequences, CSV, Json, IOUtils, TLC
CONSTANTS MaxOps, Style     \* Style: "plain" or "err" (results that are errors)
VARIABLES prog, len
Some(X) == RandomElement(X)
Chance(n) == RandomElement(1..100) <= n
Sizes == {0, 1, 2, 3, 10, 100, 511, 512, 513, 1200, 1300, 1400, 1490, 1498, 1499, 1500, 1501, 1502, 1510, 2999, 3000, 3001, 4500, 4501}
Codes == {200, 200, 201, 204, 206, 301, 304, 400, 404, 418, 500, 503, 299}
Keys == {"X-A", "x-a", "Content-Type", "ETag", "X-Long"}
OpOf(z) ==
  LET x == Some(1..100) IN
  IF x <= 45 THEN [op |-> Some({"write", "write", "write0", "printf"}), n |-> Some(Sizes)]
  ELSE IF x <= 57 THEN [op |-> "flush", n |-> 0]
  ELSE IF x <= 67 THEN [op |-> "headers", n |-> 0]
  ELSE IF x <= 77 THEN [op |-> "code", n |-> Some(Codes)]
  ELSE IF x <= 90 THEN [op |-> "header", k |-> Some(Keys), n |-> Some({0, 1, 20, 400, 1600})]
  ELSE IF x <= 97 THEN [op |-> "length", n |-> 0]
  ELSE [op |-> "nokeep", n |-> 0]
Ret(z) == IF Style = "err" THEN Some({0, 0, -500, -500, -501, -502, 2, -2, 3}) ELSE IF Chance(6) THEN Some({-2, 3, 1}) ELSE 2
GInit == prog = <<>> /\ len = Some(0..MaxOps)
GNext == Len(prog) < MaxOps + 1 /\ UNCHANGED len
         /\ prog' = Append(prog, IF Len(prog) < len THEN OpOf(Len(prog)) ELSE [op |-> "ret", n |-> Ret(1)])
GSpec == GInit /\ [][GNext]_<<prog, len>>
Emit == Len(prog) = MaxOps + 1 => CSVWrite("%1$s", <<ToJson([prog |-> prog])>>, IOEnv.OUT)
=============================================================================
