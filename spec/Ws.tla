--------------------------------- MODULE Ws ---------------------------------
(* The websocket protocol of a server connection: frames, what of them an   *)
(* application sees, and what has to be on the wire.                        *)
EXTENDS Bytes, Bitwise
---- \* frames
Big == 2000000000
\* length of the frame header that starts at i, 0 if it is not complete
HLen(b, i) == IF i + 1 > Len(b) THEN 0 ELSE
  LET l7 == b[i + 1] % 128 ext == IF l7 = 126 THEN 2 ELSE IF l7 = 127 THEN 8 ELSE 0 m == IF b[i + 1] >= 128 THEN 4 ELSE 0 IN
  IF i + 1 + ext + m > Len(b) THEN 0 ELSE 2 + ext + m
PayLen(b, i) == LET l7 == b[i + 1] % 128 IN
  IF l7 = 126 THEN (b[i + 2] * 256) + b[i + 3]
  ELSE IF l7 < 126 THEN l7
  ELSE IF \E k \in 2..5 : b[i + k] # 0 THEN Big
  ELSE IF b[i + 6] >= 100 THEN Big ELSE (b[i + 6] * 16777216) + (b[i + 7] * 65536) + (b[i + 8] * 256) + b[i + 9]
Control(op) == op >= 8
\* one frame at i: payload as far as it is there
FrameAt(b, i) ==
  LET h == HLen(b, i) n == PayLen(b, i) s == i + h e == Min2(Len(b), s + n - 1)
      masked == b[i + 1] >= 128 raw == SubSeq(b, s, e) IN
  [op |-> b[i] % 16, fin |-> b[i] >= 128, rsv |-> (b[i] \div 16) % 8, len |-> n, masked |-> masked, hend |-> s - 1, done |-> Len(raw) = n, end |-> IF n = Big THEN Big ELSE s + n - 1,
   minimal |-> LET l7 == b[i + 1] % 128 IN l7 < 126 \/ (l7 = 126 /\ n > 125) \/ (l7 = 127 /\ n > 65535),
   d |-> IF ~masked THEN raw ELSE LET m == SubSeq(b, s - 4, s - 1) IN [k \in 1..Len(raw) |-> raw[k] ^^ m[((k - 1) % 4) + 1]]]
Unfit(f) == Control(f.op) /\ (f.len > 125 \/ ~f.fin \/ (f.op = 8 /\ f.len = 1))
RECURSIVE Frames(_, _, _)
\* all frames with a complete header
Frames(b, i, acc) == IF i > Len(b) \/ HLen(b, i) = 0 THEN acc
  ELSE LET f == FrameAt(b, i) IN IF ~f.done THEN Append(acc, f) ELSE Frames(b, f.end + 1, Append(acc, f))
Whole(b) == LET f == Frames(b, 1, <<>>) IN IF f = <<>> THEN b = <<>> ELSE f[Len(f)].done /\ f[Len(f)].end = Len(b)
---- \* what a server may send
ServerFrame(f) == f.rsv = 0 /\ ~f.masked /\ f.minimal /\ (Control(f.op) => f.fin /\ f.len <= 125) /\ (f.op = 8 => f.len # 1)
Data(fs) == SelectSeq(fs, LAMBDA f : ~Control(f.op))
Pongs(fs) == SelectSeq(fs, LAMBDA f : f.op = 10)
Closes(fs) == SelectSeq(fs, LAMBDA f : f.op = 8)
RECURSIVE Joined(_, _)
Joined(fs, k) == IF k > Len(fs) THEN <<>> ELSE fs[k].d \o Joined(fs, k + 1)
\* one message: the first frame names its kind, the rest continue it, the last says so
Message(fs, op, d) == /\ fs # <<>> /\ fs[1].op = op /\ \A k \in 2..Len(fs) : fs[k].op = 0
                      /\ \A k \in 1..Len(fs) : fs[k].fin = (k = Len(fs))
                      /\ Joined(fs, 1) = d
---- \* the client's frames as seen by the application; at |-> [i, o]: frame and bytes of it consumed
\* nothing after a close or an unfit frame matters
Ending(f) == f.op = 8 \/ Unfit(f) \/ f.len = Big
RECURSIVE Skip2(_, _)
Skip2(fr, i) == IF i <= Len(fr) /\ Control(fr[i].op) /\ ~Ending(fr[i]) THEN Skip2(fr, i + 1) ELSE i
\* the next frame of data
Settle(fr, at) == LET a == IF at.i <= Len(fr) /\ ~Control(fr[at.i].op) /\ at.o >= fr[at.i].len /\ at.o > 0 THEN [i |-> at.i + 1, o |-> 0] ELSE at IN
                  IF a.o > 0 THEN a ELSE [i |-> Skip2(fr, a.i), o |-> 0]
Here(fr, at) == at.i <= Len(fr) /\ ~Control(fr[at.i].op) /\ fr[at.i].len # Big
Avail(fr, at) == IF Here(fr, at) THEN Len(fr[at.i].d) - at.o ELSE 0
RECURSIVE TakeD(_, _, _, _)
\* the next n bytes of data, going over as many frames as needed
TakeD(fr, at0, n, acc) ==
  LET at == Settle(fr, at0) IN
  IF n = 0 THEN [ok |-> TRUE, d |-> acc, at |-> at0]
  ELSE IF ~Here(fr, at) THEN [ok |-> FALSE, d |-> acc, at |-> at]
  ELSE IF fr[at.i].len = 0 THEN TakeD(fr, [i |-> at.i + 1, o |-> 0], n, acc)
  ELSE LET k == Min2(n, Avail(fr, at)) IN
       IF k = 0 THEN [ok |-> FALSE, d |-> acc, at |-> at]
       ELSE TakeD(fr, [at EXCEPT !.o = at.o + k], n - k, acc \o SubSeq(fr[at.i].d, at.o + 1, at.o + k))
RECURSIVE Dry(_, _)
\* no byte of data is left
Dry(fr, at0) == LET at == Settle(fr, at0) IN
  IF ~Here(fr, at) THEN TRUE ELSE IF fr[at.i].len = 0 THEN Dry(fr, [i |-> at.i + 1, o |-> 0]) ELSE Avail(fr, at) = 0
\* there is nothing left to call the application for
NoMore(fr, at0) == LET at == Settle(fr, at0) IN ~Here(fr, at)
RECURSIVE MsgOp(_, _)
MsgOp(fr, i) == IF i = 0 THEN 0 ELSE IF ~Control(fr[i].op) /\ fr[i].op # 0 THEN fr[i].op ELSE MsgOp(fr, i - 1)
\* opcodes the application may be told for frame i
OpsAt(fr, i) == {fr[i].op} \union (IF fr[i].op = 0 THEN {MsgOp(fr, i)} ELSE {})
\* past empty frames
RECURSIVE PastEmpty(_, _)
PastEmpty(fr, at0) == LET at == Settle(fr, at0) IN IF Here(fr, at) /\ fr[at.i].len = 0 THEN PastEmpty(fr, [i |-> at.i + 1, o |-> 0]) ELSE at
PingsBefore(fr, i) == SelectSeq(SubSeq(fr, 1, i - 1), LAMBDA f : f.op = 9 /\ ~Unfit(f))
\* the end of the stream's useful part: index of the first ending frame, or of the first incomplete one, or one more
EndAt(fr) == IF \E i \in 1..Len(fr) : Ending(fr[i]) \/ ~fr[i].done THEN CHOOSE i \in 1..Len(fr) : (Ending(fr[i]) \/ ~fr[i].done) /\ \A k \in 1..(i - 1) : ~Ending(fr[k]) /\ fr[k].done ELSE Len(fr) + 1
=============================================================================
