------------------------------ MODULE JsonText ------------------------------
(* JSON objects of strings, digits and objects.                             *)
(* Results: [st |-> "ok" | "bad" | "any", v |-> value, p |-> next position]; "any": readers differ on it.  *)
EXTENDS Bytes
Sp(c) == c \in {9, 10, 13, 32}
RECURSIVE Skip(_, _)
Skip(t, i) == IF i <= Len(t) /\ Sp(t[i]) THEN Skip(t, i + 1) ELSE i
R(st, v, p) == [st |-> st, v |-> v, p |-> p]
No == R("bad", <<>>, 0)
Ends == R("bad", <<>>, -1)          \* wrong only because the text ends here
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Hex4Ok(t, i) == i + 3 <= Len(t) /\ \A k \in 0..3 : HexDigit(t[i + k])
Hex4(t, i) == (HexVal(t[i]) * 4096) + (HexVal(t[i + 1]) * 256) + (HexVal(t[i + 2]) * 16) + HexVal(t[i + 3])
Esc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
RECURSIVE Str(_, _, _, _)
\* the rest of a string, from i on
Str(t, i, acc, any) ==
  IF i > Len(t) THEN Ends
  ELSE IF t[i] = 34 THEN R(IF any THEN "any" ELSE "ok", acc, i + 1)
  ELSE IF t[i] # 92 THEN Str(t, i + 1, Append(acc, t[i]), any \/ t[i] < 32)
  ELSE IF i = Len(t) THEN Ends
  ELSE IF t[i + 1] \in {34, 92, 47, 98, 102, 110, 114, 116} THEN Str(t, i + 2, Append(acc, Esc(t[i + 1])), any)
  ELSE IF t[i + 1] # 117 THEN Str(t, i + 2, Append(acc, t[i + 1]), TRUE)
  ELSE IF ~Hex4Ok(t, i + 2) THEN (IF i + 5 > Len(t) /\ \A k \in (i + 2)..Len(t) : HexDigit(t[k]) THEN Ends ELSE No)
  ELSE LET u == Hex4(t, i + 2) IN
       IF u = 0 THEN No                                     \* a text of this library cannot hold it
       ELSE IF u \in 56320..57343 THEN No
       ELSE IF u \in 55296..56319
            THEN IF At(t, i + 6, <<92, 117>>) /\ Hex4Ok(t, i + 8) /\ Hex4(t, i + 8) \in 56320..57343
                 THEN Str(t, i + 12, acc \o Utf8(65536 + ((u - 55296) * 1024) + (Hex4(t, i + 8) - 56320)), any)
                 ELSE IF i + 11 > Len(t) /\ t[Len(t)] # 34 THEN Ends ELSE No
       ELSE Str(t, i + 6, acc \o Utf8(u), any)
RECURSIVE DigEnd(_, _)
DigEnd(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN DigEnd(t, i + 1) ELSE i
Worse(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
RECURSIVE Obj(_, _), Pairs(_, _, _, _)
\* an object at i: value is the sequence of its pairs [k, d |-> is an object, v |-> text, sub |-> pairs]
Obj(t, i0) == LET i == Skip(t, i0) IN
  IF i > Len(t) THEN Ends ELSE IF t[i] # 123 THEN No
  ELSE LET j == Skip(t, i + 1) IN IF j <= Len(t) /\ t[j] = 125 THEN R("ok", <<>>, j + 1) ELSE Pairs(t, j, <<>>, "ok")
Pairs(t, i, acc, st) ==
  IF i > Len(t) THEN Ends ELSE IF t[i] # 34 THEN No
  ELSE LET k == Str(t, i + 1, <<>>, FALSE) c == Skip(t, k.p) IN
  IF k.st = "bad" THEN k ELSE IF c > Len(t) THEN Ends ELSE IF t[c] # 58 THEN No
  ELSE LET i2 == Skip(t, c + 1) IN
  IF i2 > Len(t) THEN Ends
  ELSE LET v == IF t[i2] = 123 THEN Obj(t, i2)
                ELSE IF t[i2] = 34 THEN Str(t, i2 + 1, <<>>, FALSE)
                ELSE IF Digit(t[i2]) THEN R(IF t[i2] = 48 /\ DigEnd(t, i2) > i2 + 1 THEN "any" ELSE "ok", SubSeq(t, i2, DigEnd(t, i2) - 1), DigEnd(t, i2))
                ELSE No
           s2 == Worse(st, Worse(k.st, v.st)) e == Skip(t, v.p)
           a2 == Append(acc, IF t[i2] = 123 THEN [k |-> k.v, d |-> TRUE, v |-> <<>>, sub |-> v.v] ELSE [k |-> k.v, d |-> FALSE, v |-> v.v, sub |-> <<>>]) IN
  IF v.st = "bad" THEN v ELSE IF e > Len(t) THEN Ends
  ELSE IF t[e] = 125 THEN R(s2, a2, e + 1)
  ELSE IF t[e] = 44 THEN Pairs(t, Skip(t, e + 1), a2, s2)
  ELSE No
JsonObj(t) == LET o == Obj(t, 1) IN IF o.st # "bad" /\ Skip(t, o.p) > Len(t) THEN o ELSE IF o.st = "bad" THEN o ELSE No
\* can the text be the beginning of a good one
Viable(t) == LET o == Obj(t, 1) IN o.st # "bad" \/ o.p = -1
\* the same entries, those of equal keys in the same order
RECURSIVE SameDict(_, _)
SameDict(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       LET x == SelectSeq(a, LAMBDA e : e.k = a[i].k) y == SelectSeq(b, LAMBDA e : e.k = a[i].k) IN
       /\ Len(x) = Len(y)
       /\ \A j \in 1..Len(x) : x[j].d = y[j].d /\ x[j].v = y[j].v /\ SameDict(x[j].sub, y[j].sub)
JsonQuoteOk(s, t) == LET r == Str(t \o <<34>>, 1, <<>>, FALSE) IN r.st = "ok" /\ r.v = s /\ r.p = Len(t) + 2
=============================================================================
