----------------------------- MODULE HttpsTrace -----------------------------
(* HTTP over TLS: the same transitions, and what the client deciphers is what was written.          *)
(* "stall" (bytes were sent, the server waits for the socket all the same) and "noshake" have none. *)
EXTENDS HttpTrace
VARIABLES outs
svars == <<tvars, outs>>
O_(c) == IF c \in DOMAIN outs THEN outs[c] ELSE <<>>
PutO(c, v) == outs' = [x \in DOMAIN outs \cup {c} |-> IF x = c THEN v ELSE outs[x]]
SInit == TInit /\ outs = <<>>
Same == UNCHANGED <<conns, limits, custom>> /\ Advance
SNext ==
  \/ Is("tgot") /\ Ev.d = O_(Ev.c) /\ PutO(Ev.c, <<>>) /\ (Ev.dead => Ev.bye) /\ Same
  \/ Is("plain") /\ ~Ev.ok /\ UNCHANGED outs /\ Same
  \/ /\ IF More THEN Ev.e # "tgot" /\ Ev.e # "plain" ELSE FALSE
     /\ (Ev.e = "req" => Ev.sec)
     /\ TNext
     /\ IF Ev.e = "out" THEN PutO(Ev.c, O_(Ev.c) \o Ev.d) ELSE UNCHANGED outs
STraceSpec == SInit /\ [][SNext]_svars
=============================================================================
