------------------------------- MODULE Store -------------------------------
(* A session store: a partial function from identifiers to dictionaries.    *)
(* Two store objects may share one medium (a database file, a server).      *)
EXTENDS Bytes
Empty == [x \in {} |-> <<>>]
Put(st, id, d) == [x \in DOMAIN st \cup {id} |-> IF x = id THEN d ELSE st[x]]
Del(st, id) == [x \in DOMAIN st \ {id} |-> st[x]]
Found(st, id) == id \in DOMAIN st
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
\* what an identifier issued by the server looks like: fits in a cookie, and has room for enough randomness
IdOk(id) == Len(id) >= 20 /\ \A i \in 1..Len(id) : Alnum(id[i]) \/ id[i] \in {45, 95, 46}
\* with n random identifiers, every place shows many different characters
Varied(ids, k) == LET n == Len(ids) IN \A i \in 1..Len(ids[1]) : Cardinality({ids[j][i] : j \in {x \in 1..n : Len(ids[x]) >= i}}) >= k
=============================================================================
