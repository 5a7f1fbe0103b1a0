----------------------------- MODULE TmplGen -----------------------------
(* Sets of templates, token by token, and trees of files to pack.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, CSV, IOUtils, Randomization
CONSTANTS Mode, MaxFiles, MaxToks
VARIABLES fs, cur, st, used, n, done
gvars == <<fs, cur, st, used, n, done>>
R(S) == RandomElement(S)
Tk(t, a, b, c) == [t |-> t, a |-> a, b |-> b, c |-> c]
Paths == {"a", "b", "c", "x", "y", "no", "s", "s.a", "s.t.b", "x.a", "x.t.b", "l", "y.a", "s.no", "a.b"}
Dicts == {"s", "l", "s.t", "x", "no", "a", "x.t", "e"}
Ops == {"==", "!=", "<", ">", "<=", ">="}
GInit == fs = <<>> /\ cur = <<>> /\ st = <<>> /\ used = {} /\ n = 0 /\ done = FALSE
Add(t) == cur' = Append(cur, t) /\ n' = n + 1
Me == Len(fs) + 1
Room == n < MaxToks
Top == st[Len(st)]
Pop == SubSeq(st, 1, Len(st) - 1)
Plain ==
  \/ Room /\ \E k \in {R(1..40)} : Add(Tk("text", ToString(k), "", "")) /\ UNCHANGED <<st, used>>
  \/ Room /\ \E p \in {R(Paths)} : Add(Tk("var", p, ToString(R(0..3)), "")) /\ UNCHANGED <<st, used>>
  \/ Room /\ \E k \in {R(1..8)} : Add(Tk("comment", ToString(k), "", "")) /\ UNCHANGED <<st, used>>
  \/ Room /\ \E k \in {R(1..6)} : Add(Tk("trans", ToString(k), "", "")) /\ UNCHANGED <<st, used>>
  \/ Room /\ Len(st) < 4 /\ \E p \in {R({"a", "b", "c", "x.a", "no", "s.a"})} : Add(Tk("if1", p, "", "")) /\ st' = Append(st, "if") /\ UNCHANGED used
  \/ Room /\ Len(st) < 4 /\ \E p \in {R(Paths)}, q \in {R({"a", "b", "no", "\"1\"", "\"2\"", "\"3\"", "\"4\"", "x"})}, o \in {R(Ops)}, w \in {R(0..1)} :
       Add(IF w = 0 THEN Tk("if3", p, o, q) ELSE Tk("if3", q, o, p)) /\ st' = Append(st, "if") /\ UNCHANGED used
  \/ Room /\ Len(st) < 4 /\ \E v \in {R({"x", "y", "a"})}, p \in {R(Dicts)} : Add(Tk("for", v, p, "")) /\ st' = Append(st, "for") /\ UNCHANGED used
  \/ Room /\ Len(st) < 4 /\ \E b \in {R({"b1", "b2", "b3"})} : b \notin used /\ Add(Tk("block", b, "", "")) /\ st' = Append(st, "block") /\ used' = used \cup {b}
  \/ Room /\ Me > 1 /\ \E j \in {R(1..Len(fs))} : Add(Tk("include", ToString(j), "", "")) /\ UNCHANGED <<st, used>>
  \/ cur = <<>> /\ Me > 1 /\ \E j \in {R(1..Len(fs))} : Add(Tk("extends", ToString(j), "", "")) /\ UNCHANGED <<st, used>>
  \/ st # <<>> /\ Top = "if" /\ Add(Tk("else", "", "", "")) /\ st' = Append(Pop, "else") /\ UNCHANGED used
  \/ st # <<>> /\ Add(Tk("close", Top, "", "")) /\ st' = Pop /\ UNCHANGED used
Template ==
  \/ ~done /\ Plain /\ UNCHANGED <<fs, done>>
  \/ ~done /\ st = <<>> /\ (n >= 3 \/ R(1..3) = 1) /\ fs' = Append(fs, cur) /\ cur' = <<>> /\ used' = {} /\ n' = 0 /\ UNCHANGED st /\ done' = (Me >= MaxFiles)
\* a tree: directories in the path, name, size
Tree ==
  \/ ~done /\ n < MaxToks /\ \E d \in {R(0..3)}, a \in {R(0..7)}, b \in {R(0..7)}, k \in {R(0..23)}, z \in {R({0, 1, 2, 3, 4, 5, 15, 16, 17, 100, 1500, 4094, 4095, 4096, 9000})} :
       /\ cur' = Append(cur, [d |-> SubSeq(<<a, b, (a + b) % 8>>, 1, d), k |-> k, z |-> z]) /\ n' = n + 1 /\ UNCHANGED <<fs, st, used, done>>
  \/ ~done /\ n > 0 /\ R(1..3) = 1 /\ fs' = Append(fs, cur) /\ cur' = <<>> /\ n' = 0 /\ UNCHANGED <<st, used>> /\ done' = (Me >= MaxFiles)
GNext == IF Mode = "pack" THEN Tree ELSE Template
Emit == done => CSVWrite("%1$s", <<ToJson([fs |-> fs])>>, IOEnv.OUT)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
