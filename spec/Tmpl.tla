------------------------------- MODULE Tmpl -------------------------------
(* The language of the templates: what a set of template files denotes for a context.            *)
(* A context is a sequence of entries [k, d, v, sub]: key, is it a dictionary, text, its entries. *)
EXTENDS Bytes

\* ------------------------------------------------------------- from bytes to tokens
LB == 123
Opens(s, i) == LET J == {j \in i..(Len(s) - 1) : s[j] = LB /\ s[j + 1] \in {123, 37, 35}}
               IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k
White(c) == c \in {32, 9, 10, 11, 12, 13}
\* words of a tag: text in quotes is one word
RECURSIVE Words_(_, _)
Words_(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF White(s[i]) THEN Words_(s, i + 1)
  ELSE IF s[i] = 34 THEN LET j == IndexFrom(s, i + 1, 34) IN
       IF j = 0 THEN <<>> ELSE <<[q |-> TRUE, s |-> SubSeq(s, i + 1, j - 1)]>> \o Words_(s, j + 1)
  ELSE LET W == {j \in i..Len(s) : White(s[j])} j == IF W = {} THEN Len(s) + 1 ELSE CHOOSE j \in W : \A k \in W : j <= k IN
       <<[q |-> FALSE, s |-> SubSeq(s, i, j - 1)]>> \o Words_(s, j)
Words(s) == Words_(s, 1)
NoSpace(s) == SelectSeq(s, LAMBDA c : c # SP)
\* parts of a name
RECURSIVE Parts_(_, _)
Parts_(s, i) == LET j == IndexFrom(s, i, 46) IN IF j = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, j - 1)>> \o Parts_(s, j + 1)
Parts(s) == Parts_(NoSpace(s), 1)
Tok(t, s, w) == [t |-> t, s |-> s, w |-> w]
RECURSIVE Lex_(_, _)
Lex_(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET j == Opens(s, i) IN
    IF j = 0 THEN <<Tok("text", SubSeq(s, i, Len(s)), <<>>)>>
    ELSE LET e == CASE s[j + 1] = 123 -> <<125, 125>> [] s[j + 1] = 37 -> <<37, 125>> [] OTHER -> <<35, 125>>
             k == FindFrom(s, j + 2, e)
             in == SubSeq(s, j + 2, k - 1)
             pre == IF j > i THEN <<Tok("text", SubSeq(s, i, j - 1), <<>>)>> ELSE <<>>
             this == CASE s[j + 1] = 123 -> <<Tok("var", <<>>, Parts(in))>> [] s[j + 1] = 37 -> <<Tok("tag", Words(in)[1].s, Words(in))>> [] OTHER -> <<>>
         IN IF k = 0 THEN pre ELSE pre \o this \o Lex_(s, k + 2)
Lex(s) == Lex_(s, 1)

\* ------------------------------------------------------------- meaning
IsTag(t, n) == t.t = "tag" /\ t.s = B(n)
OpensBody(t) == IsTag(t, "if") \/ IsTag(t, "for") \/ IsTag(t, "block")
ClosesBody(t) == IsTag(t, "endif") \/ IsTag(t, "endfor") \/ IsTag(t, "endblock")
\* the token that ends the body that was opened before i
RECURSIVE CloseOf(_, _, _)
CloseOf(ts, i, d) == IF i > Len(ts) THEN i ELSE IF OpensBody(ts[i]) THEN CloseOf(ts, i + 1, d + 1)
                     ELSE IF ClosesBody(ts[i]) THEN IF d = 0 THEN i ELSE CloseOf(ts, i + 1, d - 1) ELSE CloseOf(ts, i + 1, d)
\* its else, or its end when there is none
RECURSIVE ElseOf(_, _, _)
ElseOf(ts, i, d) == IF i > Len(ts) THEN i ELSE IF OpensBody(ts[i]) THEN ElseOf(ts, i + 1, d + 1)
                    ELSE IF IsTag(ts[i], "else") /\ d = 0 THEN i
                    ELSE IF ClosesBody(ts[i]) THEN IF d = 0 THEN i ELSE ElseOf(ts, i + 1, d - 1) ELSE ElseOf(ts, i + 1, d)

Entry(ctx, k) == LET I == {i \in 1..Len(ctx) : ctx[i].k = k} IN IF I = {} THEN <<>> ELSE <<ctx[CHOOSE i \in I : TRUE]>>
RECURSIVE Look(_, _)
Look(ctx, p) == LET e == Entry(ctx, p[1]) IN
  IF e = <<>> \/ Len(p) = 1 THEN e ELSE IF e[1].d THEN Look(e[1].sub, Tail(p)) ELSE <<>>
\* <<text>> or <<>>
Text(ctx, p) == LET e == Look(ctx, p) IN IF e = <<>> THEN <<>> ELSE IF e[1].d THEN <<>> ELSE <<e[1].v>>
Operand(ctx, w) == IF w.q THEN <<w.s>> ELSE Text(ctx, Parts(w.s))
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Cond(ctx, w) ==
  IF Len(w) = 2 THEN LET o == Operand(ctx, w[2]) IN o # <<>> /\ o[1] # B("false")
  ELSE LET a == Operand(ctx, w[2]) b == Operand(ctx, w[4]) op == w[3].s both == a # <<>> /\ b # <<>> IN
    CASE op = B("==") -> a = b
      [] op = B("!=") -> a # b
      [] op = B("<")  -> IF both THEN Less(a[1], b[1]) ELSE FALSE
      [] op = B(">")  -> IF both THEN Less(b[1], a[1]) ELSE FALSE
      [] op = B("<=") -> a = b \/ (IF both THEN Less(a[1], b[1]) ELSE FALSE)
      [] op = B(">=") -> a = b \/ (IF both THEN Less(b[1], a[1]) ELSE FALSE)
Bind(ctx, k, e) == Append(SelectSeq(ctx, LAMBDA x : x.k # k), [e EXCEPT !.k = k])
Sorted(es) == SortSeq(es, LAMBDA x, y : Less(x.k, y.k))
Esc(c) == CASE c = 60 -> B("&lt;") [] c = 62 -> B("&gt;") [] c = 38 -> B("&amp;") [] c = 34 -> B("&quot;") [] c = 39 -> B("&#39;") [] OTHER -> <<c>>
RECURSIVE EscAll(_, _)
EscAll(s, i) == IF i > Len(s) THEN <<>> ELSE Esc(s[i]) \o EscAll(s, i + 1)
Escaped(s) == EscAll(s, 1)

\* blocks of a file: name -> where its content is
BlocksOf(F, f) == LET ts == F[f] I == {i \in 1..Len(ts) : IsTag(ts[i], "block")} IN
  [n \in {ts[i].w[2].s : i \in I} |-> LET i == CHOOSE i \in I : ts[i].w[2].s = n IN [f |-> f, lo |-> i + 1, hi |-> CloseOf(ts, i + 1, 0) - 1]]
RECURSIVE Range_(_, _, _, _, _, _), Each_(_, _, _, _, _, _, _, _, _), File_(_, _, _, _)
\* tokens lo..hi of file f with the context and the blocks of those that extend it
Range_(F, f, lo, hi, ctx, bl) ==
  IF lo > hi THEN <<>>
  ELSE LET t == F[f][lo] ts == F[f] IN
    CASE t.t = "text" -> t.s \o Range_(F, f, lo + 1, hi, ctx, bl)
      [] t.t = "var" -> LET x == Text(ctx, t.w) IN (IF x = <<>> THEN <<>> ELSE Escaped(x[1])) \o Range_(F, f, lo + 1, hi, ctx, bl)
      [] t.t = "tag" /\ t.s = B("if") ->
           LET e == ElseOf(ts, lo + 1, 0) z == CloseOf(ts, lo + 1, 0) IN
           (IF Cond(ctx, t.w) THEN Range_(F, f, lo + 1, e - 1, ctx, bl) ELSE Range_(F, f, e + 1, z - 1, ctx, bl)) \o Range_(F, f, z + 1, hi, ctx, bl)
      [] t.t = "tag" /\ t.s = B("for") ->
           LET z == CloseOf(ts, lo + 1, 0) e == Look(ctx, Parts(t.w[4].s)) IN
           (IF e = <<>> THEN <<>> ELSE IF ~e[1].d THEN <<>> ELSE Each_(F, f, lo + 1, z - 1, ctx, bl, t.w[2].s, Sorted(e[1].sub), 1)) \o Range_(F, f, z + 1, hi, ctx, bl)
      [] t.t = "tag" /\ t.s = B("block") ->
           LET z == CloseOf(ts, lo + 1, 0) b == bl[t.w[2].s] IN Range_(F, b.f, b.lo, b.hi, ctx, bl) \o Range_(F, f, z + 1, hi, ctx, bl)
      [] t.t = "tag" /\ t.s = B("include") -> File_(F, t.w[2].s, ctx, <<>>) \o Range_(F, f, lo + 1, hi, ctx, bl)
      [] t.t = "tag" /\ t.s = B("trans") -> t.w[2].s \o Range_(F, f, lo + 1, hi, ctx, bl)
      [] OTHER -> Range_(F, f, lo + 1, hi, ctx, bl)
Each_(F, f, lo, hi, ctx, bl, k, es, n) ==
  IF n > Len(es) THEN <<>> ELSE Range_(F, f, lo, hi, Bind(ctx, k, es[n]), bl) \o Each_(F, f, lo, hi, ctx, bl, k, es, n + 1)
\* a file: the blocks of those that extend it hide its own
File_(F, f, ctx, bl) ==
  LET ts == F[f] own == BlocksOf(F, f) all == (IF bl = <<>> THEN own ELSE bl @@ own) I == {i \in 1..Len(ts) : IsTag(ts[i], "extends")} IN
  IF I # {} THEN File_(F, ts[CHOOSE i \in I : TRUE].w[2].s, ctx, all) ELSE Range_(F, f, 1, Len(ts), ctx, all)
Render(F, f, ctx) == File_(F, f, ctx, <<>>)

\* ------------------------------------------------------------- packed files
\* files of a packed directory: [p |-> names, d |-> bytes]. Names that begin with a dot or end with ~ are left out.
Left(n) == n[1] = 46 \/ n[Len(n)] = 126
Packed(x) == \A i \in 1..Len(x.p) : ~Left(x.p[i])
RECURSIVE PathOf(_, _)
PathOf(p, i) == IF i > Len(p) THEN <<>> ELSE (IF i > 1 THEN <<47>> ELSE <<>>) \o p[i] \o PathOf(p, i + 1)
Find(tree, path) == LET I == {i \in 1..Len(tree) : Packed(tree[i]) /\ PathOf(tree[i].p, 1) = path} IN IF I = {} THEN <<>> ELSE <<tree[CHOOSE i \in I : TRUE].d>>
=============================================================================
