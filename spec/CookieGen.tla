----------------------------- MODULE CookieGen -----------------------------
(* Cookie headers made of pieces: all of up to MaxToks, or random longer.   *)
EXTENDS Cookie, Json, IOUtils, CSV
CONSTANTS MaxToks, Sim
VARIABLES s, n, made    \* made: cookies, if all pieces are whole cookies joined properly
Toks == {B("a=1"), B("b=two"), B("a=x=y"), B("c="), B("d"), B("; "), B(";"), B(" "), B("="), B("long-name_1=\"q v\"")}
GInit == s = <<>> /\ n = 0 /\ made = <<>>
Piece == /\ n < MaxToks /\ \E t \in (IF Sim THEN {RandomElement(Toks)} ELSE Toks) : s' = s \o t
         /\ n' = n + 1 /\ made' = <<>>
GNext == Piece
GSpec == GInit /\ [][GNext]_<<s, n, made>>
Emit == (n = MaxToks) => CSVWrite("%1$s", <<ToJson([s |-> s])>>, IOEnv.OUT)
---- \* what the definition says of properly joined cookies
Names == {B("a"), B("b"), B("sid_1")}
Vals == {<<>>, B("1"), B("x=y"), B("\"q\""), <<195, 169>>}
MInit == s = <<>> /\ n = 0 /\ made = <<>>
MNext == n < MaxToks /\ \E k \in Names, v \in Vals, g \in {B("; "), B(";"), B(";   ")} :
           /\ s' = (IF s = <<>> THEN <<>> ELSE s \o g) \o k \o <<61>> \o v /\ n' = n + 1 /\ made' = Append(made, [k |-> k, v |-> v])
MSpec == MInit /\ [][MNext]_<<s, n, made>>
Joined == (n > 0) => (Cookies(s) = made /\ SameCookies(Cookies(s), made))
=============================================================================
