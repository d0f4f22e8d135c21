------------------------------- MODULE MCTimer ------------------------------
(* All histories of NM timer managers within the bounds: NP threads (the   *)
(* first one drives them), NT timers, TOTAL operations, deadlines 0 .. MAXT. *)
EXTENDS Timer
CONSTANTS NP, NT, NM, TOTAL, MAXT
VARIABLES calls, told    \* timer -> callbacks it got; timer -> stop() has returned TRUE for it
mv == <<vars, calls, told>>
Cfg == [np |-> NP, nt |-> NT, mgr |-> [i \in 1..NT |-> ((i - 1) % NM) + 1]]
Mgrs == 1..NM
Depth(p) == Len(pc[p])
Init == InitWith(Cfg) /\ calls = [i \in 1..NT |-> <<>>] /\ told = [i \in 1..NT |-> FALSE]
\* operations so far are bounded by what has been started (the deadlines are not looked at)
CONSTANTS MAXDEPTH
VARIABLE used
mvars == <<mv, used>>
MInit == Init /\ used = 0
Start(p) ==
  /\ Depth(p) < MAXDEPTH
  /\ \/ /\ used < TOTAL /\ used' = used + 1
        /\ \/ \E i \in Tms : \E d \in 0..MAXT : (\A q \in Procs : \A k \in DOMAIN pc[q] : ~(pc[q][k].o = "add" /\ pc[q][k].x = i))
                                                 /\ (\A j \in 1..(i-1) : tm[j].st # "no") /\ Call(p, "add", i, d)
           \/ \E i \in Tms : tm[i].st # "no" /\ Call(p, "stop", i, 0)
           \/ \E m \in Mgrs : Call(p, "emp", m, 0) \/ Call(p, "clr", m, 0)
     \/ p = 1 /\ used' = used /\ \E m \in Mgrs : Due \cap Of(m) # {} /\ Call(p, "upd", m, 0)
  /\ UNCHANGED <<calls, told>>
Step(p) ==
  \/ SilentP(p) /\ UNCHANGED <<calls, told, used>>
  \/ /\ pc[p] # <<>> /\ Top(p).o = "cb" /\ Top(p).st = "due"
     /\ CbBegin(p, Top(p).x, Top(p).r)
     /\ calls' = [calls EXCEPT ![Top(p).x] = Append(@, Top(p).r)]
     /\ UNCHANGED <<told, used>>
  \/ /\ pc[p] # <<>> /\ Top(p).o = "cb" /\ CbEnd(p, Top(p).x) /\ UNCHANGED <<calls, told, used>>
  \/ /\ pc[p] # <<>> /\ Ret(p, Top(p).o, Top(p).r)
     /\ told' = IF Top(p).o = "stop" /\ Top(p).r = 1 THEN [told EXCEPT ![Top(p).x] = TRUE] ELSE told
     /\ UNCHANGED <<calls, used>>
Next == \/ \E p \in Procs : Start(p) \/ Step(p)
        \/ now < MAXT /\ Advance(now + 1) /\ UNCHANGED <<calls, told, used>>
        \/ Quiesce /\ UNCHANGED <<calls, told, used>>
Spec == MInit /\ [][Next]_mvars
FairSpec == Spec /\ \A p \in 1..NP : WF_mvars(Step(p))
                 /\ WF_mvars(pc[1] = <<>> /\ Due # {} /\ Start(1) /\ used' = used)
                 /\ WF_mvars(now < MAXT /\ Advance(now + 1) /\ UNCHANGED <<calls, told, used>>)
-----------------------------------------------------------------------------
\* exactly one callback, and the right one
Once == \A i \in Tms : Len(calls[i]) <= 1
StopIsTold == \A i \in Tms : told[i] /\ calls[i] # <<>> => calls[i] = <<1>>
NotEarly == \A i \in Tms : calls[i] = <<0>> => tm[i].dl <= now
NotStoppedRunsFalse == \A i \in Tms : (calls[i] # <<>>) => tm[i].st = "done"
OwnersExist == \A i \in Pending : tm[i].own # <<>> => (Len(pc[tm[i].own[1]]) >= tm[i].own[2] /\ pc[tm[i].own[1]][tm[i].own[2]].o = "clr")
AllCalled == \A i \in 1..NT : [](tm[i].st \in {"wait", "stop"} => <>(calls[i] # <<>>))
=============================================================================
