------------------------------ MODULE RouteMC ------------------------------
(* All tables of up to two rules, flat or nested one level, over a small pattern set, with all short *)
(* paths: what the outcome operators of Route mean in terms of the property.                          *)
EXTENDS Route
VARIABLES rules, path
L(b) == [t |-> "lit", b |-> b]
Pats == {<<>>, <<L(<<97>>)>>, <<L(<<97>>), [t |-> "end"]>>, <<[t |-> "grp", n |-> 1, opt |-> TRUE, p |-> <<L(<<97>>)>>], [t |-> "grp", n |-> 2, opt |-> FALSE, p |-> <<[t |-> "cls", c |-> "noslash", min |-> 1]>>]>>,
         <<[t |-> "alt", n |-> 1, ps |-> <<<<L(<<97>>)>>, <<L(<<97, 47>>)>>>>]>>}
Strs == {<<>>, <<97>>, <<97, 47>>}
Lf(id, st) == [t |-> "leaf", id |-> id, st |-> st]
Insides(id) == {<<Lf(id, 2)>>, <<Lf(id, 0)>>, <<Lf(id, 0), Lf(id + 10, 2)>>, <<[t |-> "url", rules |-> <<[re |-> FALSE, str |-> <<47>>, hs |-> <<Lf(id, 2)>>]>>], Lf(id + 10, 0)>>}
RuleSet(id) == {[re |-> TRUE, pat |-> p, hs |-> h] : p \in Pats, h \in Insides(id)} \union {[re |-> FALSE, str |-> x, hs |-> h] : x \in Strs, h \in Insides(id)}
Paths == UNION {[1..n -> {97, 98, 47}] : n \in 0..3}
Init == path \in Paths /\ rules \in {<<>>} \union {<<r>> : r \in RuleSet(1)} \union {<<r, q>> : r \in RuleSet(1), q \in RuleSet(2)}
Next == UNCHANGED <<rules, path>>
Spec == Init /\ [][Next]_<<rules, path>>
Out == Chain(<<[t |-> "url", rules |-> rules], Lf(99, 2)>>, path, <<>>)
Hit(i) == RuleMatches(rules[i], path) # {}
Suffix(x) == Len(x) <= Len(path) /\ x = SubSeq(path, Len(path) - Len(x) + 1, Len(path))
Inv ==
  /\ Out # {}
  /\ \A o \in Out :
       /\ \A k \in 1..Len(o.v) : Suffix(o.v[k].path)
       \* leaves of a rule are visited only if it is the first that matches
       /\ \A k \in 1..Len(o.v) : o.v[k].id # 99 => LET i == IF o.v[k].id % 10 = 1 THEN 1 ELSE 2 IN Hit(i) /\ \A j \in 1..(i - 1) : ~Hit(j)
       \* whoever comes after a table that declines sees the whole path
       /\ \A k \in 1..Len(o.v) : o.v[k].id = 99 => o.v[k].path = path /\ k = Len(o.v)
       /\ o.st # 0
       /\ (\A i \in 1..Len(rules) : ~Hit(i)) => Len(o.v) = 1 /\ o.v[1].par = <<>>
=============================================================================
