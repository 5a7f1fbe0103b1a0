-------------------------------- MODULE WsMC --------------------------------
(* Laws of Ws on all small frame sequences: what is encoded is what is read, however it is split. *)
EXTENDS Ws
CONSTANTS MaxFrames, Ops
Pays == {<<>>, <<5>>, <<1, 200>>}
VARIABLES fs, cuts
Enc(f) == <<f.op + (IF f.fin THEN 128 ELSE 0)>>
   \o (CASE f.enc = 0 -> <<Len(f.d) + (IF f.mask = <<>> THEN 0 ELSE 128)>>
         [] f.enc = 1 -> <<126 + (IF f.mask = <<>> THEN 0 ELSE 128), 0, Len(f.d)>>
         [] OTHER -> <<127 + (IF f.mask = <<>> THEN 0 ELSE 128), 0, 0, 0, 0, 0, 0, 0, Len(f.d)>>)
   \o f.mask \o (IF f.mask = <<>> THEN f.d ELSE [k \in 1..Len(f.d) |-> f.d[k] ^^ f.mask[((k - 1) % 4) + 1]])
RECURSIVE EncAll(_, _)
EncAll(s, k) == IF k > Len(s) THEN <<>> ELSE Enc(s[k]) \o EncAll(s, k + 1)
RECURSIVE DataOf(_, _)
DataOf(s, k) == IF k > Len(s) THEN <<>> ELSE IF Control(s[k].op) THEN (IF s[k].op = 8 \/ ~s[k].fin THEN <<>> ELSE DataOf(s, k + 1)) ELSE s[k].d \o DataOf(s, k + 1)
Init == fs = <<>> /\ cuts = <<>>
Next == \/ Len(fs) < MaxFrames /\ cuts = <<>> /\ \E o \in Ops, p \in Pays, e \in {0, 2}, m \in {<<>>, <<1, 2, 3, 255>>}, fin \in BOOLEAN : fs' = Append(fs, [op |-> o, fin |-> fin, enc |-> e, mask |-> m, d |-> p]) /\ UNCHANGED cuts
        \/ Len(cuts) < 2 /\ fs # <<>> /\ \E n \in {1, 3} : cuts' = Append(cuts, n) /\ UNCHANGED fs
Spec == Init /\ [][Next]_<<fs, cuts>>
B0 == EncAll(fs, 1)
P == Frames(B0, 1, <<>>)
S0 == [i |-> 1, o |-> 0]
Laws == /\ Whole(B0) /\ Len(P) = Len(fs)
        /\ \A k \in 1..Len(fs) : P[k].op = fs[k].op /\ P[k].fin = fs[k].fin /\ P[k].d = fs[k].d /\ P[k].done /\ (P[k].minimal <=> fs[k].enc = 0)
        /\ LET d == DataOf(fs, 1) t == TakeD(P, S0, Len(d), <<>>) IN t.ok /\ t.d = d /\ Dry(P, t.at) /\ ~TakeD(P, S0, Len(d) + 1, <<>>).ok
        /\ Len(cuts) = 2 => LET a == TakeD(P, S0, cuts[1], <<>>) b == TakeD(P, a.at, cuts[2], <<>>) c == TakeD(P, S0, cuts[1] + cuts[2], <<>>) IN
             a.ok /\ b.ok => c.ok /\ c.d = a.d \o b.d /\ Settle(P, c.at) = Settle(P, b.at)
=============================================================================
