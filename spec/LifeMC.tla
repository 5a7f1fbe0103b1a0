------------------------------- MODULE LifeMC -------------------------------
(* How a detached server starts and ends: flags under a lock, a thread which polls, and stops from other threads and *)
(* from handlers at any moment.  Every interleaving.                                                                 *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Stoppers, MaxStop, MaxListen
VARIABLES lst, stp, ports, opn, det, thr, np, w, pst, c, so, sure, n, k, ack, down, joins
vars == <<lst, stp, ports, opn, det, thr, np, w, pst, c, so, sure, n, k, ack, down, joins>>
\* lst listening, stp asked to stop, opn open and polled, det there is a thread to wait for, thr the thread, pst the poller was stopped
All == Stoppers \cup {"h"}          \* h: the handler which runs in the thread
MInit == /\ lst = FALSE /\ stp = FALSE /\ ports = FALSE /\ opn = FALSE /\ det = 0 /\ thr = [x \in 1..MaxListen |-> "none"] /\ np = 0 /\ w = [x \in All \cup {"c"} |-> 0] /\ pst = FALSE /\ c = "idle" /\ so = [i \in All |-> "idle"] /\ sure = [i \in All |-> FALSE]
         /\ n = 0 /\ k = 0 /\ ack = FALSE /\ down = FALSE /\ joins = 0
InProgress == {i \in All : so[i] # "idle"}
\* the program: listen, and once stopped again, then free
Call == c = "idle" /\ k < MaxListen /\ k' = k + 1 /\ c' = "join" /\ ack' = FALSE /\ down' = FALSE /\ UNCHANGED <<lst, stp, ports, opn, det, thr, pst, np, w, so, sure, n, joins>>
Join == c = "join" /\ det' = 0 /\ w' = [w EXCEPT !["c"] = det] /\ c' = (IF det # 0 THEN "wait" ELSE "open") /\ UNCHANGED <<lst, stp, ports, opn, thr, pst, np, so, sure, n, k, ack, down, joins>>
Waited == c = "wait" /\ thr[w["c"]] = "done" /\ thr' = [thr EXCEPT ![w["c"]] = "gone"] /\ joins' = joins + 1 /\ c' = "open" /\ UNCHANGED <<lst, stp, ports, opn, det, pst, np, w, so, sure, n, k, ack, down>>
Busy == c = "open" /\ lst /\ c' = "up" /\ UNCHANGED <<lst, stp, ports, opn, det, thr, pst, np, w, so, sure, n, k, ack, down, joins>>
Open == c = "open" /\ ~lst /\ stp' = FALSE /\ lst' = TRUE /\ c' = "bind" /\ UNCHANGED <<ports, opn, det, thr, pst, np, w, so, sure, n, k, ack, down, joins>>
Bind == c = "bind" /\ ports' = TRUE /\ c' = "ready" /\ UNCHANGED <<lst, stp, opn, det, thr, pst, np, w, so, sure, n, k, ack, down, joins>>
Ready == /\ c = "ready"
         /\ IF stp THEN ports' = FALSE /\ lst' = FALSE /\ c' = "up" /\ UNCHANGED <<opn, np>> ELSE opn' = TRUE /\ np' = np + 1 /\ c' = "create" /\ UNCHANGED <<ports, lst>>
         /\ UNCHANGED <<stp, det, thr, pst, w, so, sure, n, k, ack, down, joins>>
Create == c = "create" /\ det' = k /\ thr' = [thr EXCEPT ![k] = "ready"] /\ c' = "up" /\ UNCHANGED <<lst, stp, ports, opn, pst, np, w, so, sure, n, k, ack, down, joins>>
\* listen returned
Rest == c = "up" /\ ~ack /\ InProgress = {} /\ ack' = TRUE /\ UNCHANGED <<lst, stp, ports, opn, det, thr, pst, np, w, c, so, sure, n, k, down, joins>>
Again == c = "up" /\ down /\ k < MaxListen /\ InProgress \ {"h"} = {} /\ c' = "idle" /\ UNCHANGED <<lst, stp, ports, opn, det, thr, pst, np, w, so, sure, n, k, ack, down, joins>>
Free == c = "up" /\ InProgress \ {"h"} = {} /\ c' = "fstop" /\ UNCHANGED <<lst, stp, ports, opn, det, thr, pst, np, w, so, sure, n, k, ack, down, joins>>
Stopping == IF lst THEN stp' = TRUE /\ (IF opn THEN ports' = FALSE /\ opn' = FALSE /\ pst' = TRUE ELSE UNCHANGED <<ports, opn, pst>>) ELSE UNCHANGED <<stp, ports, opn, pst>>
FStop == c = "fstop" /\ Stopping /\ det' = 0 /\ w' = [w EXCEPT !["c"] = det] /\ c' = (IF det # 0 THEN "fwait" ELSE "freed") /\ UNCHANGED <<lst, thr, np, so, sure, n, k, ack, down, joins>>
FWait == c = "fwait" /\ thr[w["c"]] = "done" /\ thr' = [thr EXCEPT ![w["c"]] = "gone"] /\ joins' = joins + 1 /\ c' = "freed" /\ UNCHANGED <<lst, stp, ports, opn, det, pst, np, w, so, sure, n, k, ack, down>>
\* the thread
Run(x) == thr[x] = "ready" /\ thr' = [thr EXCEPT ![x] = "poll"] /\ UNCHANGED <<lst, stp, ports, opn, det, pst, np, w, c, so, sure, n, k, ack, down, joins>>
Leave(x) == thr[x] = "poll" /\ pst /\ (so["h"] # "idle" => w["h"] # x) /\ thr' = [thr EXCEPT ![x] = "leave"] /\ np' = np - 1 /\ pst' = (np > 1) /\ UNCHANGED <<lst, stp, ports, opn, det, w, c, so, sure, n, k, ack, down, joins>>
Close(x) == /\ thr[x] = "leave" /\ thr' = [thr EXCEPT ![x] = "done"] /\ lst' = FALSE
            /\ IF opn THEN ports' = FALSE /\ opn' = FALSE ELSE UNCHANGED <<ports, opn>>
            /\ UNCHANGED <<stp, det, pst, np, w, c, so, sure, n, k, ack, down, joins>>
\* somebody asks to stop
Begin(i, x) == /\ so[i] = "idle" /\ n < MaxStop /\ c \notin {"fstop", "fwait", "freed"} /\ (i = "h" => thr[x] = "poll") /\ n' = n + 1 /\ w' = [w EXCEPT ![i] = IF i = "h" THEN x ELSE 0]
               /\ so' = [so EXCEPT ![i] = "begun"] /\ sure' = [sure EXCEPT ![i] = ack] /\ UNCHANGED <<lst, stp, ports, opn, det, thr, pst, np, c, k, ack, down, joins>>
Do(i) == /\ so[i] = "begun" /\ Stopping
         /\ IF det # 0 /\ i # "h" THEN det' = 0 /\ w' = [w EXCEPT ![i] = det] /\ so' = [so EXCEPT ![i] = "wait"] ELSE UNCHANGED <<det, w>> /\ so' = [so EXCEPT ![i] = "end"]
         /\ UNCHANGED <<lst, thr, np, c, sure, n, k, ack, down, joins>>
Wait(i) == so[i] = "wait" /\ thr[w[i]] = "done" /\ thr' = [thr EXCEPT ![w[i]] = "gone"] /\ joins' = joins + 1 /\ so' = [so EXCEPT ![i] = "end"] /\ UNCHANGED <<lst, stp, ports, opn, det, pst, np, w, c, sure, n, k, ack, down>>
End(i) == so[i] = "end" /\ so' = [so EXCEPT ![i] = "idle"] /\ down' = (down \/ (sure[i] /\ ack)) /\ UNCHANGED <<lst, stp, ports, opn, det, thr, pst, np, w, c, sure, n, k, ack, joins>>
Finished == c = "freed" /\ UNCHANGED vars
MNext == \/ Call \/ Join \/ Waited \/ Busy \/ Open \/ Bind \/ Ready \/ Create \/ Rest \/ Again \/ Free \/ FStop \/ FWait \/ Finished \/ (\E x \in 1..MaxListen : Run(x) \/ Leave(x) \/ Close(x))
         \/ \E i \in All : (\E x \in 1..(IF i = "h" THEN MaxListen ELSE 1) : Begin(i, x)) \/ Do(i) \/ Wait(i) \/ End(i)
MSpec == MInit /\ [][MNext]_vars
\* after a stop which was certainly carried out the ports are closed; after free there is neither port nor thread; each thread is waited for once
Closed == down => ~ports
Freed == c = "freed" => ~ports /\ (\A x \in 1..MaxListen : thr[x] \in {"none", "gone"}) /\ ~lst /\ ~pst /\ np = 0
Once == joins <= k
=============================================================================
