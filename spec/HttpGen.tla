------------------------------ MODULE HttpGen ------------------------------
(* Random requests of the grammar of HttpReq, as bytes, for driving the implementation, and the      *)
(* theorem that reading back what was encoded gives the request encoded (Encode/ParseReq agree).      *)
EXTENDS HttpReq, CSV, Json, IOUtils, Randomization

CONSTANTS MaxReqs,    \* requests per connection
          Kinds,      \* kinds of bodies
          Big         \* bodies with long runs
VARIABLES reqs

Some(X) == RandomElement(X)
Chance(n) == RandomElement(1..100) <= n

Cat2(a, b) == a \o b
RECURSIVE Rep(_, _)
Rep(f(_), n) == IF n = 0 THEN <<>> ELSE f(n) \o Rep(f, n - 1)

EOL == IF Chance(85) THEN CRLF ELSE <<LF>>

\* ---- paths and queries
SegPool == {B("a"), B("index.html"), B("%20"), B("a%2Fb"), B("%c3%B1"), B("x+y"), B("%25"), B(".."), B("~u"), B(";p=1"), B("%7e"), B("*"), B("%ff%FE"), <<195, 177>>, B("a%3Fb"), B("%2e%2E"), B("%0a")}
PathOf(z) == Rep(LAMBDA i : <<47>> \o (IF Chance(85) THEN Some(SegPool) ELSE <<>>), Some(1..4))
KeyPool == {B("a"), B("b"), B("key%20x"), B("k%3D"), B("A"), B("%26"), B("n+m"), B("q"), B("a"), B("%41"), B("x[]")}
ValPool == {B(""), B("1"), B("v%20w"), B("a+b"), B("=="), B("%3d%26%25"), B("?"), B("x=y"), B("%C3%A9"), B("/.."), B("long-value-with-some-more-characters"), B("%2B"), <<195, 169>>}
PairOf(z) == IF Chance(15) THEN Some(KeyPool) ELSE Some(KeyPool) \o <<61>> \o Some(ValPool)
RECURSIVE PairsOf(_)
PairsOf(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN PairOf(1) ELSE PairOf(1) \o <<38>> \o PairsOf(n - 1)
QueryOf(z) == IF Chance(40) THEN <<>> ELSE <<63>> \o PairsOf(Some(0..4))

\* ---- headers
NamePool == {B("Host"), B("User-Agent"), B("X-A"), B("x-a"), B("X-a"), B("Cookie"), B("Accept"), B("X-Long-Header-Name-0123456789"), B("If-None-Match"), B("!#$%&'*+-.^_`|~"), B("Z"), B("Accept-Language")}
TextPool == {B("v"), B("text/html, */*"), B("a:b:c"), B("two words"), B("\"quoted; string\""), B("k=v; k2=v2"), B("http://h/x?y=z"), B("x"), <<233, 128, 255>>, B("0"), B("tab") \o <<9>> \o B("inside"), B("trailing-colon:")}
LeadPool == {<<32>>, <<32>>, <<>>, <<32, 32>>, <<9>>, <<32, 9, 32>>}
TailPool == {<<>>, <<>>, <<>>, <<32>>, <<32, 9>>}
HdrOf(z) == Some(NamePool) \o <<58>> \o Some(LeadPool) \o (IF Chance(8) THEN <<>> ELSE Some(TextPool) \o Some(TailPool))
            \o (IF Chance(8) THEN EOL \o Some({<<32>>, <<9>>, <<32, 32, 9>>}) \o Some(TextPool) ELSE <<>>) \o EOL
HdrsOf(z) == Rep(LAMBDA i : HdrOf(i), IF Chance(4) THEN Some(12..30) ELSE Some(0..5))
ConnOf(z) == LET x == Some(1..10) IN
          IF x = 1 THEN B("Connection: close") \o CRLF ELSE IF x = 2 THEN B("connection: keep-alive") \o CRLF
          ELSE IF x = 3 THEN B("Connection: Keep-Alive") \o CRLF ELSE IF x = 4 THEN B("CONNECTION:Close") \o CRLF ELSE <<>>

\* ---- bodies
BytePool == {B("abc"), B("--"), <<13, 10>>, <<10>>, <<0>>, <<13>>, <<255>>, B("boundary"), B("x"), B("0123456789"), <<13, 10, 45, 45>>, <<10, 45, 45>>, <<13, 13, 10>>}
BdPool == {B("X"), B("AaB03x"), B("---------------------------12345"), B("a-b"), B("--"), B("==b_9'()+,./:=?")}
Near(bd) == {CRLF \o <<45, 45>> \o SubSeq(bd, 1, Len(bd) - 1), CRLF \o <<45, 45>> \o SubSeq(bd, 1, Len(bd) \div 2), <<45, 45>> \o bd, CRLF \o <<45>>, <<13, 13, 10, 45, 45>>, CRLF \o CRLF, <<LF>>, CRLF,
             CRLF \o CRLF \o <<45, 45>> \o SubSeq(bd, 1, Len(bd) - 1), <<45, 45>> \o SubSeq(bd, 1, Len(bd) - 1) \o <<13>>, <<13, 10, 45, 45, 13, 10>>}
Run(n) == [i \in 1..n |-> 97 + (i % 23)]
LongOf(z) == IF Big /\ Chance(35) THEN Run(Some({900, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 1400, 1499, 1500, 1501})) ELSE <<>>
BlobOf(bd) == Rep(LAMBDA i : IF Chance(45) THEN Some(BytePool) ELSE Some(Near(bd)), Some(0..7)) \o LongOf(bd) \o Rep(LAMBDA i : Some(Near(bd)), Some(0..1))
TextOf(bd) == Rep(LAMBDA i : IF Chance(45) THEN Some(BytePool \ {<<0>>}) ELSE Some(Near(bd)), Some(0..7)) \o LongOf(bd) \o Rep(LAMBDA i : Some(Near(bd)), Some(0..1))
FNames == {B("a"), B("field 1"), B("x;y"), B("ni") \o <<195, 177>> \o B("o"), B("filename"), B("b[]"), B("a=b"), B("name")}
FileNames == {B(""), B("f.txt"), B("a;b.png"), B("my file (1).jpg"), B("C:/x/y.z"), B("name=q")}
PartOf(bd, nm) ==
  LET f == Chance(40) n == IF Chance(35) THEN nm ELSE Some(FNames) IN
  <<45, 45>> \o bd \o CRLF
  \o (IF Chance(20) THEN B("X-Other: a; b=c") \o CRLF ELSE <<>>)
  \o Some({B("Content-Disposition"), B("content-disposition")}) \o B(": form-data; name=\"") \o n \o <<34>>
  \o (IF f THEN B("; filename=\"") \o Some(FileNames) \o <<34>> ELSE <<>>) \o CRLF
  \o (IF Chance(30) THEN B("Content-Type: text/plain; charset=x") \o CRLF ELSE <<>>)
  \o CRLF \o (IF f THEN BlobOf(bd) ELSE TextOf(bd)) \o CRLF
Digits(n) == DecBytes(n)
ClHdr(n) == Some({B("Content-Length: "), B("content-length:"), B("Content-Length:  ")}) \o Digits(n) \o CRLF
\* <<method, headers, body>>
BodyOf(k) ==
  CASE k = "none" -> <<Some({B("GET"), B("GET"), B("HEAD"), B("OPTIONS"), B("DELETE"), B("MKCOL"), B("MOVE"), B("PROPFIND"), B("PATCH"), B("PROPPATCH"), B("POST")}), <<>>, <<>>>>
    [] k = "form" -> LET b == PairsOf(Some(0..5)) IN
                     <<B("POST"), B("Content-Type: application/x-www-form-urlencoded") \o (IF Chance(20) THEN B("; charset=UTF-8") ELSE <<>>) \o CRLF \o ClHdr(Len(b)), b>>
    [] k = "mp" -> LET bd == Some(BdPool) nm == Some(FNames)
                       b == Rep(LAMBDA i : PartOf(bd, nm), Some(1..3)) \o <<45, 45>> \o bd \o <<45, 45>> \o (IF Chance(70) THEN CRLF ELSE <<>>)
                       ct == B("Content-Type: multipart/form-data; boundary=") \o (IF Chance(25) THEN <<34>> \o bd \o <<34>> \o (IF Chance(50) THEN B("; x=y") ELSE <<>>) ELSE bd) IN
                   <<B("POST"), ct \o CRLF \o ClHdr(Len(b)), b>>
    [] k = "data" -> LET b == BlobOf(B("X")) IN
                     <<Some({B("POST"), B("PROPFIND"), B("PATCH"), B("GET"), B("DELETE")}), (IF Chance(50) THEN B("Content-Type: application/json") \o CRLF ELSE <<>>) \o ClHdr(Len(b)), b>>
    [] k = "put" -> LET b == BlobOf(B("X")) IN <<B("PUT"), ClHdr(Len(b)), b>>

GenReq(z) == LET k == Some(Kinds) x == BodyOf(k) hs1 == HdrsOf(z) hs2 == HdrsOf(z) IN
  [b |-> (IF Chance(4) THEN CRLF ELSE <<>>) \o x[1] \o <<SP>> \o PathOf(z) \o QueryOf(z) \o <<SP>> \o (IF Chance(75) THEN B("HTTP/1.1") ELSE B("HTTP/1.0")) \o EOL
         \o hs1 \o ConnOf(z) \o x[2] \o (IF Chance(50) THEN hs2 ELSE <<>>) \o EOL \o x[3],
   body |-> Len(x[3]), k |-> k]

GInit == reqs = <<>>
GNext == Len(reqs) < MaxReqs /\ reqs' = Append(reqs, GenReq(Len(reqs)))
GSpec == GInit /\ [][GNext]_reqs
Emit == Len(reqs) = MaxReqs => CSVWrite("%1$s", <<ToJson([reqs |-> reqs])>>, IOEnv.OUT)
=============================================================================
