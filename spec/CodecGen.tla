------------------------------ MODULE CodecGen ------------------------------
(* Every short text over the bytes a codec tells apart; JSON texts are extended as long as they can become good. *)
EXTENDS Codec, JsonText, CSV, Json, IOUtils
CONSTANTS Kinds, MaxToks, Leaves
VARIABLES kind, s, n
One1(S) == {<<c>> : c \in S}
Toks(k) ==
  CASE k = "json" -> One1({123, 125, 34, 58, 44, 32, 97, 48, 55, 92}) \union {B("u0041"), B("ud83d"), B("\\ude00"), B("u0000"), B("u00"), B("n"), <<200>>, <<1>>, B("\"k\":"), B("\"v\""), B("{}"), B("true"), B("-1"), B("[")}
    [] k = "juq" -> One1({34, 92, 117, 48, 97, 200, 1}) \union {B("\\u0041"), B("\\ud83d"), B("\\ude00"), B("\\u00e9"), B("\\u20AC"), B("\\u0000"), B("\\n"), B("\\q"), B("\\\""), B("00e")}
    [] k = "b64d" -> One1({61, 32, 10, 200, 42, 0}) \union {B("QQ"), B("Q"), B("A/+9"), B("="), B("==")}
    [] k = "unq" -> One1({37, 43, 52, 49, 71, 97, 200}) \union {B("%41"), B("%2f"), B("%e"), B("%25")}
    [] k = "text" -> One1({1, 9, 10, 13, 31, 34, 39, 38, 60, 62, 92, 37, 43, 48, 55, 65, 122, 126, 127, 128, 255})
    [] OTHER -> {}
Start(k) == IF k = "juq" THEN <<34>> ELSE <<>>
Go(k, t) == IF k = "json" THEN Viable(t) ELSE IF k = "juq" THEN Str(t, 2, <<>>, FALSE).p <= 0 ELSE TRUE
GInit == kind \in Kinds /\ s = Start(kind) /\ n = 0
GNext == n < MaxToks /\ Go(kind, s) /\ n' = n + 1 /\ UNCHANGED kind /\ \E x \in Toks(kind) : ~(kind = "b64d" /\ 0 \in {x[i] : i \in 1..Len(x)}) /\ s' = s \o x
GSpec == GInit /\ [][GNext]_<<kind, s, n>>
Emit == (Leaves => (n = MaxToks \/ ~Go(kind, s))) => CSVWrite("%1$s", <<ToJson([k |-> kind, s |-> s])>>, IOEnv.OUT)
---- \* laws of the definitions
HtmlEnc(x) == Concat([i \in 1..Len(x) |-> CASE x[i] = 60 -> B("&lt;") [] x[i] = 62 -> B("&gt;") [] x[i] = 38 -> B("&amp;") [] x[i] = 34 -> B("&quot;") [] x[i] = 39 -> B("&#39;") [] OTHER -> <<x[i]>>])
Hx(v) == IF v < 10 THEN 48 + v ELSE 55 + v
PctEnc(x) == Concat([i \in 1..Len(x) |-> IF Unreserved(x[i]) THEN <<x[i]>> ELSE <<37, Hx(x[i] \div 16), Hx(x[i] % 16)>>])
JsonEnc(x) == Concat([i \in 1..Len(x) |-> IF x[i] < 32 THEN B("\\u00") \o <<Hx(x[i] \div 16), Hx(x[i] % 16)>> ELSE IF x[i] \in {34, 92} THEN <<92, x[i]>> ELSE <<x[i]>>])
CEnc(x) == <<34>> \o Concat([i \in 1..Len(x) |-> IF x[i] < 32 \/ x[i] > 126 \/ x[i] \in {34, 92} THEN <<92, 48 + (x[i] \div 64), 48 + ((x[i] \div 8) % 8), 48 + (x[i] % 8)>> ELSE <<x[i]>>]) \o <<34>>
Laws == kind = "text" =>
  /\ B64EncOk(s, B64Enc(s)) /\ (s # <<>> => B64Valid(B64Enc(s)) /\ B64Dec(B64Enc(s)) = s)
  /\ HtmlOk(s, HtmlEnc(s)) /\ (HtmlPlain(s) => HtmlEnc(s) = s)
  /\ QuoteOk(s, PctEnc(s)) /\ UnquoteOk(PctEnc(s), s)
  /\ JsonQuoteOk(s, JsonEnc(s))
  /\ LET o == JsonObj(B("{\"k\":{\"") \o JsonEnc(s) \o B("\":\"") \o JsonEnc(s) \o B("\"}}")) IN
     o.st = "ok" /\ o.v = <<[k |-> B("k"), d |-> TRUE, v |-> <<>>, sub |-> <<[k |-> s, d |-> FALSE, v |-> s, sub |-> <<>>]>>]>>
  /\ CQuoteOk(s, CEnc(s))
\* no text is both good and refused; a good one is viable all along
JLaws == kind = "json" => LET o == JsonObj(s) IN o.st # "bad" => \A i \in 0..Len(s) : Viable(SubSeq(s, 1, i))
=============================================================================
