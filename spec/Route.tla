------------------------------- MODULE Route -------------------------------
(* Routing: a request path goes through chains of handlers: leaves, pattern tables and path handlers. *)
(* Patterns are abstract syntax trees; the longest match counts, and the captures are those of some    *)
(* longest match.                                                                                     *)
EXTENDS Bytes

In(c, x) == CASE c = "dig" -> x \in 48..57
              [] c = "word" -> x \in 48..57 \/ x \in 97..122
              [] c = "noslash" -> x # 47
              [] c = "any" -> TRUE
NoCaps == [n \in 1..15 |-> [has |-> FALSE, v |-> <<>>]]

\* all ways to match the items p from position i of s on: <<end, captures>>
RECURSIVE Mt(_, _, _, _)
Mt(p, s, i, caps) ==
  IF p = <<>> THEN {<<i, caps>>}
  ELSE LET it == Head(p) rest == Tail(p)
           Groups(R) == UNION {Mt(rest, s, r[1], [r[2] EXCEPT ![it.n] = [has |-> TRUE, v |-> SubSeq(s, i, r[1] - 1)]]) : r \in R} IN
  CASE it.t = "lit" -> IF At(s, i, it.b) THEN Mt(rest, s, i + Len(it.b), caps) ELSE {}
    [] it.t = "cls" -> UNION {Mt(rest, s, j, caps) : j \in {j \in (i + it.min)..(Len(s) + 1) : \A k \in i..(j - 1) : In(it.c, s[k])}}
    [] it.t = "grp" -> Groups(Mt(it.p, s, i, caps)) \union (IF it.opt THEN Mt(rest, s, i, caps) ELSE {})
    [] it.t = "alt" -> Groups(UNION {Mt(it.ps[k], s, i, caps) : k \in 1..Len(it.ps)})
    [] it.t = "end" -> IF i = Len(s) + 1 THEN Mt(rest, s, i, caps) ELSE {}
Longest(R) == {r \in R : \A q \in R : q[1] <= r[1]}
Matches(p, s) == Longest(Mt(p, s, 1, NoCaps))
CapPars(caps) == LET ns == SelectSeq([n \in 1..15 |-> n], LAMBDA n : caps[n].has) IN [i \in 1..Len(ns) |-> [k |-> DecBytes(ns[i]), v |-> caps[ns[i]].v]]

\* does the rule match the path s: set of <<end, parameters>>
RuleMatches(r, s) == IF r.re THEN {<<m[1], CapPars(m[2])>> : m \in Matches(r.pat, s)}
                     ELSE IF s = r.str THEN {<<Len(s) + 1, <<>>>>} ELSE {}

\* Outcomes of handing the path s with the parameters par to the handlers hs, in order:
\*   v: the leaves visited, st: the result (0: nobody took it), by: the handler that took it, par: parameters afterwards
Nobody(par) == [v |-> <<>>, st |-> 0, by |-> <<>>, par |-> par]
RECURSIVE Chain(_, _, _), One(_, _, _)
Chain(hs, s, par) ==
  IF hs = <<>> THEN {Nobody(par)}
  ELSE UNION {IF o.st # 0 THEN {o} ELSE {[x EXCEPT !.v = o.v \o x.v] : x \in Chain(Tail(hs), s, o.par)} : o \in One(Head(hs), s, par)}
\* the inside is entered with what is left of the path; if it declines nothing happened, except that the
\* parameters may stay
Inside(hs, s, par, m) ==
  UNION {IF o.st # 0 THEN {o} ELSE {o, [o EXCEPT !.par = par]} : o \in Chain(hs, SubSeq(s, m[1], Len(s)), par \o m[2])}
One(h, s, par) ==
  CASE h.t = "leaf" -> {[v |-> <<[id |-> h.id, path |-> s, par |-> par]>>, st |-> h.st, by |-> <<h>>, par |-> par]}
    [] h.t = "static" -> {[v |-> <<>>, st |-> 2, by |-> <<h>>, par |-> par]}
    [] h.t = "url" -> LET hit == {i \in 1..Len(h.rules) : RuleMatches(h.rules[i], s) # {}} IN
                      IF hit = {} THEN {Nobody(par)}
                      ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j IN
                           UNION {Inside(h.rules[i].hs, s, par, m) : m \in RuleMatches(h.rules[i], s)}
    [] h.t = "path" -> LET R == Matches(h.pat, s) IN
                       IF R = {} THEN {Nobody(par)} ELSE UNION {Inside(h.hs, s, par, <<m[1], <<>>>>) : m \in R}
=============================================================================
