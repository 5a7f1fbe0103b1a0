-------------------------------- MODULE Sha1 --------------------------------
(* SHA-1; 32-bit words are pairs of 16-bit halves <<high, low>>.            *)
EXTENDS Integers, Sequences, Bitwise
ShM == 65536
ShP2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
ShAdd(a, b) == LET s == a[2] + b[2] IN <<(a[1] + b[1] + (s \div ShM)) % ShM, s % ShM>>
ShXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
ShAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
ShNot(a) == <<65535 - a[1], 65535 - a[2]>>
ShRotl(a, n) == IF n >= 16 THEN LET b == <<a[2], a[1]>> k == n - 16 IN
                       <<((b[1] * ShP2[k + 1]) % ShM) + (b[2] \div ShP2[17 - k]), ((b[2] * ShP2[k + 1]) % ShM) + (b[1] \div ShP2[17 - k])>>
                    ELSE <<((a[1] * ShP2[n + 1]) % ShM) + (a[2] \div ShP2[17 - n]), ((a[2] * ShP2[n + 1]) % ShM) + (a[1] \div ShP2[17 - n])>>
ShZeros(n) == [i \in 1..n |-> 0]
ShPadded(m) == LET n == Len(m) z == (119 - (n % 64)) % 64 IN
  m \o <<128>> \o ShZeros(z) \o <<0, 0, 0, 0, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n * 8) % 256>>
RECURSIVE ShSched(_, _)
ShSched(w, t) == IF t > 80 THEN w ELSE ShSched(Append(w, ShRotl(ShXor(ShXor(w[t - 3], w[t - 8]), ShXor(w[t - 14], w[t - 16])), 1)), t + 1)
ShF(t, b, c, d) == IF t <= 20 THEN ShXor(ShAnd(b, c), ShAnd(ShNot(b), d)) ELSE IF t <= 40 THEN ShXor(b, ShXor(c, d))
                       ELSE IF t <= 60 THEN ShXor(ShAnd(b, c), ShXor(ShAnd(b, d), ShAnd(c, d))) ELSE ShXor(b, ShXor(c, d))
ShK(t) == IF t <= 20 THEN <<23170, 31129>> ELSE IF t <= 40 THEN <<28377, 60321>> ELSE IF t <= 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
RECURSIVE ShRounds(_, _, _)
ShRounds(w, t, s) == IF t > 80 THEN s
  ELSE ShRounds(w, t + 1, <<ShAdd(ShAdd(ShRotl(s[1], 5), ShF(t, s[2], s[3], s[4])), ShAdd(ShAdd(s[5], ShK(t)), w[t])), s[1], ShRotl(s[2], 30), s[3], s[4]>>)
RECURSIVE ShBlocks(_, _, _)
ShBlocks(p, i, h) == IF i > Len(p) THEN h
  ELSE LET w0 == [t \in 1..16 |-> <<(p[i + (4 * t) - 4] * 256) + p[i + (4 * t) - 3], (p[i + (4 * t) - 2] * 256) + p[i + (4 * t) - 1]>>]
           r == ShRounds(ShSched(w0, 17), 1, h) IN ShBlocks(p, i + 64, [k \in 1..5 |-> ShAdd(h[k], r[k])])
Sha1(m) == LET h == ShBlocks(ShPadded(m), 1, <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>) IN
  [j \in 1..20 |-> LET x == h[((j - 1) \div 4) + 1] k == (j - 1) % 4 IN
     CASE k = 0 -> x[1] \div 256 [] k = 1 -> x[1] % 256 [] k = 2 -> x[2] \div 256 [] OTHER -> x[2] % 256]
=============================================================================
