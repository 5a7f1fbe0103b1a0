----------------------------- MODULE TmplMC -----------------------------
(* Every pair of small templates, over a few contexts.                     *)
EXTENDS Tmpl
CONSTANT MaxLen
VARIABLES f1, f2, phase
mvars == <<f1, f2, phase>>
Q(s) == <<34>> \o B(s) \o <<34>>
Raw == [txt |-> B("<t>"), vara |-> B("{{ a }}"), varx |-> B("{{x.a}}"), com |-> B("{# # ##}"), ifa |-> B("{% if a == ") \o Q("50%") \o B(" %}"), els |-> B("{% else %}"), eif |-> B("{% endif %}"),
        for |-> B("{%for x in l%}"), efor |-> B("{% endfor %}"), blk |-> B("{% block b %}"), eblk |-> B("{% endblock %}"), inc |-> B("{% include ") \o Q("one") \o B("%}"), ext |-> B("{% extends ") \o Q("one") \o B("%}")]
Close == [if |-> "eif", els |-> "eif", for |-> "efor", blk |-> "eblk"]
\* the open bodies after a sequence of tokens; "bad" when they do not nest
RECURSIVE Nest(_, _, _)
Nest(s, i, st) ==
  IF i > Len(s) THEN st
  ELSE LET t == s[i] top == IF st = <<>> THEN "" ELSE st[Len(st)] pop == SubSeq(st, 1, Len(st) - 1) IN
    CASE t = "ifa" -> Nest(s, i + 1, Append(st, "if"))
      [] t = "for" -> Nest(s, i + 1, Append(st, "for"))
      [] t = "blk" -> IF \E j \in 1..(i - 1) : s[j] = "blk" THEN <<"bad">> ELSE Nest(s, i + 1, Append(st, "blk"))
      [] t = "els" -> IF top = "if" THEN Nest(s, i + 1, Append(pop, "els")) ELSE <<"bad">>
      [] t = "eif" -> IF top \in {"if", "els"} THEN Nest(s, i + 1, pop) ELSE <<"bad">>
      [] t = "efor" -> IF top = "for" THEN Nest(s, i + 1, pop) ELSE <<"bad">>
      [] t = "eblk" -> IF top = "blk" THEN Nest(s, i + 1, pop) ELSE <<"bad">>
      [] t = "ext" -> IF i = 1 THEN Nest(s, i + 1, st) ELSE <<"bad">>
      [] OTHER -> Nest(s, i + 1, st)
RECURSIVE Bytes_(_, _)
Bytes_(s, i) == IF i > Len(s) THEN <<>> ELSE Raw[s[i]] \o Bytes_(s, i + 1)
Src(s) == Bytes_(s, 1)
Whole(s) == Nest(s, 1, <<>>) = <<>>
Room(s, t) == LET n == Nest(Append(s, t), 1, <<>>) IN n # <<"bad">> /\ Len(s) + 1 + Len(n) <= MaxLen
MInit == f1 = <<>> /\ f2 = <<>> /\ phase = 1
MNext == \/ phase = 1 /\ \E t \in DOMAIN Raw \ {"inc", "ext"} : Room(f1, t) /\ f1' = Append(f1, t) /\ UNCHANGED <<f2, phase>>
         \/ phase = 1 /\ Whole(f1) /\ phase' = 2 /\ UNCHANGED <<f1, f2>>
         \/ phase = 2 /\ \E t \in DOMAIN Raw : Room(f2, t) /\ f2' = Append(f2, t) /\ UNCHANGED <<f1, phase>>
MSpec == MInit /\ [][MNext]_mvars
T(k, v) == [k |-> B(k), d |-> FALSE, v |-> v, sub |-> <<>>]
D(k, s) == [k |-> B(k), d |-> TRUE, v |-> <<>>, sub |-> s]
Ctxs == {<<>>, <<T("a", B("50%")), D("l", <<D("1", <<T("a", B("<q>"))>>), T("0", B("z"))>>)>>, <<T("a", B("<b>&")), D("x", <<T("a", B("'"))>>)>>}
Files == (B("one") :> Lex(Src(f1))) @@ (B("two") :> Lex(Src(f2)))
Ready == phase = 2 /\ Whole(f2)
Count(s, t) == Cardinality({i \in 1..Len(s) : s[i] = t})
\* comments and only comments vanish: everything else is a token, in order
LexCounts(F) == Ready => /\ Len(SelectSeq(F[B("one")], LAMBDA t : t.t = "var")) = Count(f1, "vara") + Count(f1, "varx")
                      /\ Len(SelectSeq(F[B("one")], LAMBDA t : t.t = "tag")) = Len(f1) - Count(f1, "vara") - Count(f1, "varx") - Count(f1, "txt") - Count(f1, "com")
\* what is written of values holds no markup: markup comes from literal text only
RECURSIVE NoMarkup(_, _)
NoMarkup(s, i) == IF i > Len(s) THEN TRUE ELSE IF At(s, i, B("<t>")) THEN NoMarkup(s, i + 3) ELSE s[i] \notin {60, 62, 34, 39} /\ NoMarkup(s, i + 1)
Safe(o2) == Ready => \A c \in Ctxs : NoMarkup(o2[c], 1)
\* one that extends another and has no blocks is the other
ExtendsNothing(o1, o2) == (Ready /\ f2 # <<>> /\ Count(f2, "blk") = 0) => (f2[1] = "ext" => \A c \in Ctxs : o2[c] = o1[c])
\* including is putting the output there, whatever the blocks of both
IncludeAlone(o1, o2) == (Ready /\ f2 # <<>>) => ((f2[1] # "ext" /\ f2[1] = "inc") => \A c \in Ctxs : StartsWith(o2[c], o1[c]) \/ o1[c] = <<>>)
\* without loops every literal is written at most as often as it is in the sources that can be reached
Bounded(o2) == (Ready /\ Count(f1, "for") + Count(f2, "for") = 0) => \A c \in Ctxs : Len(o2[c]) <= 40 * MaxLen * (1 + MaxLen)
MInv == Ready => LET F == Files o1 == [c \in Ctxs |-> Render(F, B("one"), c)] o2 == [c \in Ctxs |-> Render(F, B("two"), c)]
        IN LexCounts(F) /\ Safe(o2) /\ ExtendsNothing(o1, o2) /\ IncludeAlone(o1, o2) /\ Bounded(o2)
=============================================================================
