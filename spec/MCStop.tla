------------------------------- MODULE MCStop ------------------------------
EXTENDS Stop, TLC
CONSTANTS NP, NC, MaxOps, Depth
VARIABLES left, wins, runs, dead, must
\* wins: request_stop calls that returned true; runs: callback -> times begun since it was registered;
\* dead: callbacks whose destructor has returned (not constructed again); must: registered at the winning request
mcvars == <<cfg, src, tok, req, cb, stk, left, wins, runs, dead, must>>
P == 1..NP
C == 1..NC
MCInit ==
  \* slot p of sources and tokens belongs to process p; one shared state
  /\ InitWith([np |-> NP, src |-> [p \in P |-> 1], tok |-> [p \in P |-> IF p = 1 THEN 0 ELSE 1], nc |-> NC])
  /\ left = [p \in P |-> MaxOps] /\ wins = 0 /\ runs = [c \in C |-> 0] /\ dead = C /\ must = {}
\* callback slots: c belongs to process 1 + c % NP, or, while it runs, to the body
Owner(c) == 1 + ((c - 1) % NP)
Busy(c) == \E p \in P : \E k \in DOMAIN stk[p] : stk[p][k].o \in {"r", "rm", "d"} /\ stk[p][k].a = c
MCCall(p) ==
  /\ left[p] > 0 /\ Len(stk[p]) < Depth
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<wins, runs, must>>
  /\ \/ Call(p, "ss", p, 0) /\ dead' = dead
     \/ Call(p, "tp", p, 0) /\ dead' = dead
     \/ Call(p, "st", p, p) /\ dead' = dead
     \/ Call(p, "sx", p, 0) /\ dead' = dead
     \/ \E c \in C : Owner(c) = p /\ c \in dead /\ ~Busy(c) /\ Call(p, "r", c, p) /\ dead' = dead \ {c}
     \/ \E c \in C : /\ c \notin dead /\ ~Busy(c)
                     /\ (Owner(c) = p \/ (Has(p) /\ Top(p).a = c))
                     /\ Call(p, "d", c, 0) /\ dead' = dead
MCSilent(p) == /\ Silent(p) /\ UNCHANGED <<left, wins, dead, runs>>
               /\ must' = IF req' # req THEN {c \in C : cb[c].st = "reg"}
                          ELSE {c \in must : cb'[c].st # "none"}
MCRet(p) ==
  /\ Ret(p, Top(p).o, Top(p).r) /\ UNCHANGED <<left, runs, must>>
  /\ wins' = IF Top(p).o = "ss" THEN wins + Top(p).r ELSE wins
  /\ dead' = IF Top(p).o = "d" THEN dead \cup {Top(p).a} ELSE dead
MCBegin(p) == \E c \in C : Begin(p, c) /\ runs' = [runs EXCEPT ![c] = @ + 1] /\ UNCHANGED <<left, wins, dead, must>>
MCEnd(p) == Has(p) /\ End(p, Top(p).a) /\ UNCHANGED <<left, wins, runs, dead, must>>
Idle == (\A p \in P : stk[p] = <<>>) /\ UNCHANGED mcvars
MCNext == (\E p \in P : MCCall(p) \/ MCSilent(p) \/ (Has(p) /\ MCRet(p)) \/ MCBegin(p) \/ MCEnd(p)) \/ Idle
MCSpec == MCInit /\ [][MCNext]_mcvars
OneWinner == wins <= 1 /\ (wins = 1 => req = {1})
\* a callback begins at most once per registration, only after the request, never when destroyed
BeginsRight == [][\A c \in C : runs'[c] > runs[c] => (req # {} /\ c \notin dead)]_mcvars
NotRunningWhenDead == \A c \in C : (c \in dead /\ ~Busy(c)) => cb[c].st = "none"
\* when the winning request returns, whatever was registered then and not destroyed has run
AllRun == wins = 1 => \A c \in must : cb[c].st \in {"done", "none"}
=============================================================================
