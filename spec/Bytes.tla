------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of integers 0..255.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Table == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL CodeOf == [c \in {SubSeq(Table, i, i) : i \in 1..Len(Table)} |-> 31 + (CHOOSE i \in 1..Len(Table) : SubSeq(Table, i, i) = c)]
\* the bytes of an ASCII string
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

CR == 13
LF == 10
CRLF == <<13, 10>>
SP == 32
TAB == 9

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* position of the first x at or after i, 0 if there is none
IndexFrom(s, i, x) ==
  IF \E j \in i..Len(s) : s[j] = x THEN CHOOSE j \in i..Len(s) : s[j] = x /\ \A k \in i..(j - 1) : s[k] # x ELSE 0
\* is t found in s at position i
At(s, i, t) == i + Len(t) - 1 <= Len(s) /\ i >= 1 /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]
\* position of the first occurrence of t in s at or after i, 0 if none
FindFrom(s, i, t) ==
  IF \E j \in i..(Len(s) - Len(t) + 1) : s[j] = t[1] /\ At(s, j, t)
  THEN CHOOSE j \in i..(Len(s) - Len(t) + 1) : s[j] = t[1] /\ At(s, j, t) /\ \A k \in i..(j - 1) : ~At(s, k, t)
  ELSE 0
Has(s, t) == FindFrom(s, 1, t) # 0
HasByte(s, x) == \E i \in 1..Len(s) : s[i] = x
StartsWith(s, t) == At(s, 1, t)

LowerB(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerB(s[i])]
IEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LowerB(a[i]) = LowerB(b[i])

Blank(c) == c = SP \/ c = TAB
TrimL(s) == IF \A i \in 1..Len(s) : Blank(s[i]) THEN <<>>
            ELSE LET f == CHOOSE i \in 1..Len(s) : ~Blank(s[i]) /\ \A k \in 1..(i - 1) : Blank(s[k]) IN SubSeq(s, f, Len(s))
TrimR(s) == IF \A i \in 1..Len(s) : Blank(s[i]) THEN <<>>
            ELSE LET f == CHOOSE i \in 1..Len(s) : ~Blank(s[i]) /\ \A k \in (i + 1)..Len(s) : Blank(s[k]) IN SubSeq(s, 1, f)
Trim(s) == TrimR(TrimL(s))

Digit(c) == c \in 48..57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
HexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE DecVal(_, _)
DecVal(s, n) == IF n = 0 THEN 0 ELSE 10 * DecVal(s, n - 1) + (s[n] - 48)
Huge == 2000000000
\* value of a decimal number, saturating
Dec(s) == IF Len(s) <= 9 THEN DecVal(s, Len(s))
          ELSE IF \A i \in 1..(Len(s) - 9) : s[i] = 48 THEN DecVal(SubSeq(s, Len(s) - 8, Len(s)), 9) ELSE Huge
RECURSIVE HexVal_(_, _)
HexVal_(s, n) == IF n = 0 THEN 0 ELSE 16 * HexVal_(s, n - 1) + HexVal(s[n])
RECURSIVE DecBytes(_)
DecBytes(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecBytes(n \div 10), 48 + (n % 10))

\* split at every byte x
RECURSIVE SplitAt(_, _, _)
SplitAt(s, i, x) ==
  LET j == IndexFrom(s, i, x) IN
  IF j = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, j - 1)>> \o SplitAt(s, j + 1, x)
Split(s, x) == SplitAt(s, 1, x)

\* percent decoding with '+' as a space.  Ill-formed escapes, and escapes that denote NUL, are reported
PctOk(s) == \A i \in 1..Len(s) : s[i] = 37 => /\ i + 2 <= Len(s) /\ HexDigit(s[i + 1]) /\ HexDigit(s[i + 2])
                                              /\ ~(s[i + 1] = 48 /\ s[i + 2] = 48)
RECURSIVE PctDec_(_, _, _)
PctDec_(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 37 THEN PctDec_(s, i + 3, Append(acc, 16 * HexVal(s[i + 1]) + HexVal(s[i + 2])))
  ELSE PctDec_(s, i + 1, Append(acc, IF s[i] = 43 THEN SP ELSE s[i]))
PctDec(s) == IF \E i \in 1..Len(s) : s[i] = 37 THEN PctDec_(s, 1, <<>>) ELSE [i \in 1..Len(s) |-> IF s[i] = 43 THEN SP ELSE s[i]]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE SumSeq(_)
SumSeq(ss) == IF ss = <<>> THEN 0 ELSE Head(ss) + SumSeq(Tail(ss))
=============================================================================
