--------------------------------- MODULE Fs ---------------------------------
(* A file tree: a function from paths (sequences of names) to nodes.        *)
EXTENDS Bytes
\* node: [t |-> "dir"] | [t |-> "file", id, size, mtime] | [t |-> "link", to |-> bytes] | [t |-> "fifo"]
Dot == <<46>>
DotDot == <<46, 46>>
Parent(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
NoEnt == [ok |-> FALSE, p |-> <<>>]
\* where the names cs lead to from the real path cur, following links
RECURSIVE Res(_, _, _, _)
Res(fs, cur, cs, n) ==
  IF cs = <<>> THEN [ok |-> TRUE, p |-> cur]
  ELSE IF fs[cur].t # "dir" THEN NoEnt
  ELSE LET c == Head(cs) IN
       IF c = <<>> \/ c = Dot THEN Res(fs, cur, Tail(cs), n)
       ELSE IF c = DotDot THEN IF cur = <<>> THEN NoEnt ELSE Res(fs, Parent(cur), Tail(cs), n)
       ELSE LET p == Append(cur, c) IN
            IF p \notin DOMAIN fs THEN NoEnt
            ELSE IF fs[p].t = "link"
                 THEN IF n = 0 THEN NoEnt
                      ELSE IF fs[p].to[1] = 47 THEN Res(fs, <<>>, Split(fs[p].to, 47) \o Tail(cs), n - 1)
                      ELSE Res(fs, cur, Split(fs[p].to, 47) \o Tail(cs), n - 1)
            ELSE Res(fs, p, Tail(cs), n)
Resolve(fs, base, path) == Res(fs, base, Split(path, 47), 20)
\* p is dir or below it
Under(dir, p) == Len(p) >= Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir
Children(fs, p) == {q \in DOMAIN fs : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}
Name(p) == p[Len(p)]

\* byte i (from 0) of the file id; fid 0..6 are readable characters
FileByte(id, i) == (((i % 251) * (i % 241)) + ((i \div 251) * 31) + (id * 37) + i) % 256
FileBytes(id, a, n) == [k \in 1..n |-> FileByte(id, a + k - 1)]
=============================================================================
