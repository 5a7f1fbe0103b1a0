------------------------------ MODULE PollerMC ------------------------------
(* How the poller works: one-shot events, a list with a lock, and slots that are used again.  Threads take an event,  *)
(* check the slot, call back, and rearm or remove; others remove and add at any moment.                              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, MaxReady, MaxUse
VARIABLES armed, act, run, gen, pend, shuts, pc, hand, used, rmv, sent
\* one descriptor number; its slot is used again after its shutdown.  shuts[g]: shutdowns of use g
vars == <<armed, act, run, gen, pend, shuts, pc, hand, used, rmv, sent>>
Gens == 1..MaxUse
MInit == /\ armed = TRUE /\ act = TRUE /\ run = FALSE /\ gen = 1 /\ pend = 0 /\ shuts = [g \in Gens |-> 0]
         /\ pc = [t \in Threads |-> "wait"] /\ hand = [t \in Threads |-> 0] /\ used = 1 /\ rmv = "idle" /\ sent = 0
Same(S) == UNCHANGED S
Data == sent < MaxReady /\ act /\ pend' = pend + 1 /\ sent' = sent + 1 /\ UNCHANGED <<armed, act, run, gen, shuts, pc, hand, used, rmv>>
Take(t) == pc[t] = "wait" /\ armed /\ pend > 0 /\ armed' = FALSE /\ hand' = [hand EXCEPT ![t] = gen] /\ pc' = [pc EXCEPT ![t] = "got"] /\ UNCHANGED <<act, run, gen, pend, shuts, used, rmv, sent>>
Look(t) == /\ pc[t] = "got"
           /\ IF act /\ ~run /\ gen = hand[t] THEN run' = TRUE /\ pc' = [pc EXCEPT ![t] = "call"] ELSE pc' = [pc EXCEPT ![t] = "wait"] /\ run' = run
           /\ UNCHANGED <<armed, act, gen, pend, shuts, hand, used, rmv, sent>>
Back(t, ret) == pc[t] = "call" /\ pend' = (IF pend > 0 THEN pend - 1 ELSE 0) /\ pc' = [pc EXCEPT ![t] = IF ret THEN "ok" ELSE "no"] /\ UNCHANGED <<armed, act, run, gen, shuts, hand, used, rmv, sent>>
\* the callback stays, or refuses
Ok(t) == /\ pc[t] = "ok" /\ run' = FALSE
         /\ IF act THEN armed' = TRUE /\ pc' = [pc EXCEPT ![t] = "wait"] ELSE armed' = armed /\ pc' = [pc EXCEPT ![t] = "shut"]
         /\ UNCHANGED <<act, gen, pend, shuts, hand, used, rmv, sent>>
No(t) == pc[t] = "no" /\ act' = FALSE /\ run' = FALSE /\ pc' = [pc EXCEPT ![t] = "shut"] /\ UNCHANGED <<armed, gen, pend, shuts, hand, used, rmv, sent>>
Shut(t) == pc[t] = "shut" /\ shuts' = [shuts EXCEPT ![hand[t]] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "wait"] /\ UNCHANGED <<armed, act, run, gen, pend, hand, used, rmv, sent>>
\* somebody else removes it
Rm == rmv = "idle" /\ armed' = FALSE /\ rmv' = "unlink" /\ UNCHANGED <<act, run, gen, pend, shuts, pc, hand, used, sent>>
Unlink == /\ rmv = "unlink" /\ act' = FALSE
          /\ rmv' = IF act /\ ~run THEN "shut" ELSE "done"
          /\ UNCHANGED <<armed, run, gen, pend, shuts, pc, hand, used, sent>>
RmShut == rmv = "shut" /\ shuts' = [shuts EXCEPT ![gen] = @ + 1] /\ rmv' = "done" /\ UNCHANGED <<armed, act, run, gen, pend, pc, hand, used, sent>>
\* the number is used again, once it was closed by the shutdown
Again == /\ shuts[gen] = 1 /\ used < MaxUse /\ rmv \in {"idle", "done"} /\ ~act /\ rmv' = "idle"
         /\ gen' = gen + 1 /\ used' = used + 1 /\ act' = TRUE /\ run' = FALSE /\ armed' = TRUE /\ pend' = 0 /\ UNCHANGED <<shuts, pc, hand, sent>>
MNext == Data \/ Rm \/ Unlink \/ RmShut \/ Again \/ \E t \in Threads : Take(t) \/ Look(t) \/ Back(t, TRUE) \/ Back(t, FALSE) \/ Ok(t) \/ No(t) \/ Shut(t)
MSpec == MInit /\ [][MNext]_vars
InCall == {t \in Threads : pc[t] \in {"call", "ok", "no"}}
Exclusive == Cardinality({t \in InCall : hand[t] = gen}) <= 1
ShutOnce == \A g \in Gens : shuts[g] <= 1
NoLate == \A t \in Threads : pc[t] = "call" => shuts[hand[t]] = 0
\* an active slot with something to read is armed, or some thread or the remover is about to deal with it
NotLost == act /\ pend > 0 => armed \/ rmv = "unlink" \/ \E t \in Threads : pc[t] \in {"got", "call", "ok", "no"} /\ hand[t] = gen
\* a slot that left is shut down, or somebody is about to
Released == ~act => shuts[gen] = 1 \/ rmv = "shut" \/ \E t \in Threads : pc[t] \in {"call", "ok", "no", "shut"} /\ hand[t] = gen
=============================================================================
