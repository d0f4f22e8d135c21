-------------------------------- MODULE Task --------------------------------
(***************************************************************************)
(* The runtime of librf: schedulers, tasks (a root coroutine and the chain *)
(* of coroutines it awaits), awaitable values, timers of sleeping          *)
(* coroutines, stop requests.                                              *)
(*                                                                         *)
(* Scheduler s is run by thread s.  The coroutines of one task form a      *)
(* stack (depth 0 is the root); at most one of them can run at a time, so  *)
(* a ready queue holds task numbers.                                       *)
(*                                                                         *)
(* Awaits:  y yield, g generator step, c child coroutine, a awaitable,     *)
(*          v via another scheduler, n sleep through a nested coroutine    *)
(* Results: 0 plain start or continuation, > 0 a value, < 0 an exception   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,     \* [ns |-> schedulers, np |-> other threads, nt |-> tasks, na |-> awaitables,
           \*  fin |-> task -> 1: it was started from a function object whose destructor runs operations]
  now,
  q,       \* scheduler -> ready tasks
  batch,   \* scheduler -> rest of the batch being run
  ph,      \* scheduler -> "idle" | "upd" timers | "run" | "out" (run_until_notask found nothing left)
  rb,      \* scheduler -> inside run_until_notask
  run,     \* scheduler -> running task, 0: none
  got,     \* scheduler -> the current batch had something to resume
  must,    \* scheduler -> timers the current update has to fire
  last,    \* scheduler -> deadline of the timer fired last in this update
  resid,   \* scheduler -> frames of finished coroutines may be waiting for their destruction
  tk,      \* task -> record, see T0
  aw,      \* awaitable -> [v: 0 open or the result, w: waiting task or 0, ft: task that stands for it or 0]
  tm,      \* scheduler -> timers [a, dl] in the order they were added
  pc,      \* process -> stack of operations in progress
  rs       \* process -> what its request_stop_all still has to reach: [t: tasks, a: timers]

vars == <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, pc, rs>>
NoTime == -1000000000
Canceled == -900

Scheds == 1..cfg.ns
Procs == 1..(cfg.ns + cfg.np)
Tasks == 1..cfg.nt
Aws == 1..(cfg.na + cfg.nt)     \* the last nt ones: the sleep inside a nested coroutine

T0 == [st |-> "no", sch |-> 0, d |-> 0, res |-> 0, hop |-> 0, k |-> "-", arg |-> 0, nd |-> 0,
       pub |-> FALSE, des |-> FALSE, src |-> FALSE, stp |-> FALSE, cb |-> FALSE, root |-> 0, task |-> 0]

InitWith(c) ==
  /\ cfg = c /\ now = 0
  /\ q = [s \in 1..c.ns |-> <<>>] /\ batch = [s \in 1..c.ns |-> <<>>]
  /\ ph = [s \in 1..c.ns |-> "idle"] /\ rb = [s \in 1..c.ns |-> FALSE]
  /\ run = [s \in 1..c.ns |-> 0] /\ got = [s \in 1..c.ns |-> FALSE]
  /\ must = [s \in 1..c.ns |-> {}] /\ last = [s \in 1..c.ns |-> NoTime]
  /\ resid = [s \in 1..c.ns |-> FALSE]
  /\ tk = [t \in 1..c.nt |-> T0]
  /\ aw = [a \in 1..(c.na + c.nt) |-> [v |-> 0, w |-> 0, ft |-> 0]]
  /\ tm = [s \in 1..c.ns |-> <<>>]
  /\ pc = [p \in 1..(c.ns + c.np) |-> <<>>]
  /\ rs = [p \in 1..(c.ns + c.np) |-> [t |-> {}, a |-> {}]]

Range(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Alive(t) == tk[t].st \notin {"no", "fin", "cap"}
TasksOf(s) == {t \in Tasks : Alive(t) /\ tk[t].sch = s}
TimersOf(s) == {x.a : x \in Range(tm[s])}
Due(s) == {x.a : x \in {y \in Range(tm[s]) : y.dl <= now}}
Push(t) == [q EXCEPT ![tk[t].sch] = Append(@, t)]

(*********************** operations: call, silent effect, return ***********)
Top(p) == IF pc[p] = <<>> THEN [o |-> "-", x |-> 0, y |-> 0, z |-> 0, st |-> "-", r |-> 0] ELSE Last(pc[p])
SetTop(p, st, r) == [pc EXCEPT ![p][Len(pc[p])].st = st, ![p][Len(pc[p])].r = r]
\* p executes user code: a thread of its own, a thread outside its scheduler, a running coroutine, a callback
UserCode(p) ==
  \/ pc[p] # <<>> /\ Top(p).o \in {"cb", "cap"} /\ Top(p).st = "in"
  \/ pc[p] = <<>> /\ ( \/ p > cfg.ns
                       \/ p <= cfg.ns /\ ph[p] = "idle" /\ ~rb[p]
                       \/ p <= cfg.ns /\ ph[p] = "run" /\ run[p] # 0 /\ tk[run[p]].st = "run")

Call(p, o, x, y, z) ==
  /\ UserCode(p)
  /\ o \in {"go", "set", "ts", "gs", "sq", "em", "reg", "rsa", "rs"}
  /\ o = "go" => x \in Tasks /\ tk[x].st = "no"
  /\ o = "set" => aw[x].v = 0
  /\ o = "ts" => aw[x].v = 0 /\ x \notin UNION {TimersOf(s) : s \in Scheds}
  /\ o = "rsa" => x = p
  /\ pc' = [pc EXCEPT ![p] = Append(@, [o |-> o, x |-> x, y |-> y, z |-> z, st |-> "called", r |-> 0])]
  /\ rs' = IF o = "rsa"
             THEN [rs EXCEPT ![p] = [t |-> {u \in TasksOf(x) : tk[u].src /\ ~tk[u].stp}, a |-> TimersOf(x)]]
             ELSE rs
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm>>

Called(p, o) == pc[p] # <<>> /\ Top(p).o = o /\ Top(p).st = "called"

\* start task x on scheduler y: a coroutine (z = 0), or the future of awaitable z.  First the scheduler knows it,
\* then it is ready (or, if the future was complete already, finished)
LinGo(p) ==
  /\ Called(p, "go")
  /\ LET t == Top(p).x  s == Top(p).y  a == Top(p).z  open == a # 0 /\ aw[a].v = 0 IN
       /\ tk' = [tk EXCEPT ![t].st = IF open THEN "fut" ELSE "new", ![t].sch = s]
       /\ aw' = IF open THEN [aw EXCEPT ![a].ft = t] ELSE aw
       /\ pc' = SetTop(p, IF open THEN "done" ELSE "half", 0)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tm, rs>>
LinGo2(p) ==
  /\ pc[p] # <<>> /\ Top(p).o = "go" /\ Top(p).st = "half"
  /\ LET t == Top(p).x IN
       /\ tk' = [tk EXCEPT ![t].st = IF Top(p).z = 0 THEN "rdy" ELSE "fin"]
       /\ q' = IF Top(p).z = 0 THEN Push(t) ELSE q
  /\ pc' = SetTop(p, "done", 0)
  /\ UNCHANGED <<cfg, now, batch, ph, rb, run, got, must, last, resid, aw, tm, rs>>

\* awaitable a gets its result: whoever waits for it becomes ready
CompleteQ(a) == IF aw[a].w # 0 THEN Push(aw[a].w) ELSE q
CompleteT(a, v) ==
  IF aw[a].w # 0 THEN [tk EXCEPT ![aw[a].w].st = "rdy", ![aw[a].w].res = v]
  ELSE IF aw[a].ft # 0 THEN [tk EXCEPT ![aw[a].ft].st = "fin"] ELSE tk
Complete(a, v) ==
  /\ q' = CompleteQ(a) /\ tk' = CompleteT(a, v)
  /\ aw' = [aw EXCEPT ![a] = [v |-> v, w |-> 0, ft |-> 0]]

LinSet(p) ==
  /\ Called(p, "set")
  /\ Complete(Top(p).x, Top(p).y)
  /\ pc' = SetTop(p, "done", 0)
  /\ resid' = [s \in Scheds |-> TRUE]
  /\ UNCHANGED <<cfg, now, batch, ph, rb, run, got, must, last, tm, rs>>

\* awaitable x is to be completed by a timer of scheduler y at time z
LinTs(p) ==
  /\ Called(p, "ts")
  /\ tm' = [tm EXCEPT ![Top(p).y] = Append(@, [a |-> Top(p).x, dl |-> Top(p).z])]
  /\ pc' = SetTop(p, "done", 0)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, rs>>

\* own task: get a stop token, ask it
LinGs(p) ==
  /\ Called(p, "gs")
  /\ tk' = [tk EXCEPT ![Top(p).x].src = TRUE]
  /\ pc' = SetTop(p, "done", 0)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, rs>>
LinSq(p) ==
  /\ Called(p, "sq")
  /\ pc' = SetTop(p, "done", IF tk[Top(p).x].stp THEN 1 ELSE 0)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, rs>>

Nothing(s) == TasksOf(s) = {} /\ q[s] = <<>> /\ tm[s] = <<>>
LinEm(p) ==
  /\ Called(p, "em")
  /\ \E r \in {0, 1} :
       /\ r = 1 => Nothing(Top(p).x)
       /\ r = 0 => (~Nothing(Top(p).x) \/ resid[Top(p).x])
       /\ pc' = SetTop(p, "done", r)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, rs>>

\* a stop callback of task x
CbFrame(t) == [o |-> "cb", x |-> t, y |-> 0, z |-> 0, st |-> "due", r |-> 0]
LinReg(p) ==
  /\ Called(p, "reg")
  /\ LET t == Top(p).x IN
       IF tk[t].stp
         THEN pc' = [SetTop(p, "done", 0) EXCEPT ![p] = Append(@, CbFrame(t))] /\ tk' = tk
         ELSE pc' = SetTop(p, "done", 0) /\ tk' = [tk EXCEPT ![t].cb = TRUE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, rs>>
CbBegin(p, t) ==
  /\ pc[p] # <<>> /\ Top(p).o = "cb" /\ Top(p).x = t /\ Top(p).st = "due"
  /\ pc' = SetTop(p, "in", 0)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, rs>>
CbEnd(p, t) ==
  /\ pc[p] # <<>> /\ Top(p).o = "cb" /\ Top(p).x = t /\ Top(p).st = "in"
  /\ pc' = [pc EXCEPT ![p] = Front(@)]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, rs>>

\* request_stop on task x alone; y: 0 through a source that it has, 1 the task makes one if it has none, 2 only if it has one
LinRs(p) ==
  /\ Called(p, "rs")
  /\ LET t == Top(p).x  nothing == tk[t].stp \/ (Top(p).y # 1 /\ ~tk[t].src) IN
       /\ tk' = [tk EXCEPT ![t].src = @ \/ Top(p).y = 1, ![t].stp = @ \/ ~nothing]
       /\ pc' = SetTop(p, IF nothing THEN "done" ELSE "half", IF nothing THEN 0 ELSE 1)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, rs>>
\* its callback, if it has one by then and the coroutine has not ended meanwhile
LinRs2(p) ==
  /\ pc[p] # <<>> /\ Top(p).o = "rs" /\ Top(p).st = "half"
  /\ LET t == Top(p).x IN
       pc' = IF tk[t].cb THEN [SetTop(p, "done", 1) EXCEPT ![p] = Append(@, CbFrame(t))] ELSE SetTop(p, "done", 1)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, rs>>

\* request_stop_all
StopOne(p) ==
  /\ Called(p, "rsa")
  /\ \E t \in {u \in TasksOf(Top(p).x) : tk[u].src /\ ~tk[u].stp} :
       /\ tk' = [tk EXCEPT ![t].stp = TRUE]
       /\ rs' = [rs EXCEPT ![p].t = @ \ {t}]
       /\ pc' = IF tk[t].cb THEN [pc EXCEPT ![p] = Append(@, CbFrame(t))] ELSE pc
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm>>
CancelOne(p) ==
  /\ Called(p, "rsa")
  /\ LET s == Top(p).x IN
     \E a \in TimersOf(s) :
       /\ Complete(a, Canceled)
       /\ tm' = [tm EXCEPT ![s] = SelectSeq(@, LAMBDA x : x.a # a)]
       /\ rs' = [rs EXCEPT ![p].a = @ \ {a}]
       /\ resid' = [resid EXCEPT ![s] = TRUE]
  /\ UNCHANGED <<cfg, now, batch, ph, rb, run, got, must, last, pc>>
RsaDone(p) ==
  /\ Called(p, "rsa") /\ rs[p].a = {} /\ \A t \in rs[p].t : tk[t].stp
  /\ pc' = SetTop(p, "done", 0)
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, rs>>

Ret(p, o, r) ==
  /\ pc[p] # <<>> /\ Top(p).o = o /\ Top(p).st = "done"
  /\ o \in {"sq", "em", "rs"} => Top(p).r = r
  /\ pc' = [pc EXCEPT ![p] = Front(@)]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, rs>>

(******************************* the scheduler *****************************)
Begin(h) ==
  /\ ph' = [ph EXCEPT ![h] = "upd"]
  /\ must' = [must EXCEPT ![h] = Due(h)]
  /\ last' = [last EXCEPT ![h] = NoTime]
  /\ UNCHANGED <<cfg, now, q, batch, run, got, resid, tk, aw, tm, pc, rs>>
BatchBegin(h) == ph[h] = "idle" /\ ~rb[h] /\ pc[h] = <<>> /\ Begin(h) /\ rb' = rb
LoopBegin(h) == ph[h] = "idle" /\ rb[h] /\ Begin(h) /\ rb' = rb
\* due timers fire in the order of their deadlines, those with equal deadlines in the order they were added
Fire(h) ==
  /\ ph[h] = "upd"
  /\ \E i \in DOMAIN tm[h] :
       LET x == tm[h][i] IN
       /\ x.dl <= now /\ x.dl >= last[h]
       /\ \A j \in DOMAIN tm[h] : tm[h][j].a \in must[h] =>
             (x.dl < tm[h][j].dl \/ (x.dl = tm[h][j].dl /\ i <= j))
       /\ Complete(x.a, 1)
       /\ tm' = [tm EXCEPT ![h] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
       /\ must' = [must EXCEPT ![h] = @ \ {x.a}]
       /\ last' = [last EXCEPT ![h] = x.dl]
  /\ resid' = [resid EXCEPT ![h] = TRUE]
  /\ UNCHANGED <<cfg, now, batch, ph, rb, run, got, pc, rs>>
Snapshot(h) ==
  /\ ph[h] = "upd" /\ must[h] = {}
  /\ batch' = [batch EXCEPT ![h] = q[h]]
  /\ q' = [q EXCEPT ![h] = <<>>]
  /\ got' = [got EXCEPT ![h] = q[h] # <<>>]
  /\ resid' = [resid EXCEPT ![h] = FALSE]
  /\ ph' = [ph EXCEPT ![h] = "run"]
  /\ UNCHANGED <<cfg, now, rb, run, must, last, tk, aw, tm, pc, rs>>
Ended(h) == ph[h] = "run" /\ batch[h] = <<>> /\ run[h] = 0
BatchEnd(h, r) ==
  /\ Ended(h) /\ ~rb[h] /\ (got[h] => r = 1)
  /\ ph' = [ph EXCEPT ![h] = "idle"]
  /\ UNCHANGED <<cfg, now, q, batch, rb, run, got, must, last, resid, tk, aw, tm, pc, rs>>
LoopEnd(h) ==
  /\ Ended(h) /\ rb[h]
  /\ ph' = [ph EXCEPT ![h] = "idle"]
  /\ UNCHANGED <<cfg, now, q, batch, rb, run, got, must, last, resid, tk, aw, tm, pc, rs>>
\* run_until_notask
LoopCall(h) ==
  /\ ph[h] = "idle" /\ ~rb[h] /\ pc[h] = <<>>
  /\ rb' = [rb EXCEPT ![h] = TRUE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, run, got, must, last, resid, tk, aw, tm, pc, rs>>
LoopDone(h) ==
  /\ ph[h] = "idle" /\ rb[h] /\ Nothing(h)
  /\ ph' = [ph EXCEPT ![h] = "out"]
  /\ UNCHANGED <<cfg, now, q, batch, rb, run, got, must, last, resid, tk, aw, tm, pc, rs>>
LoopRet(h) ==
  /\ ph[h] = "out"
  /\ ph' = [ph EXCEPT ![h] = "idle"] /\ rb' = [rb EXCEPT ![h] = FALSE]
  /\ UNCHANGED <<cfg, now, q, batch, run, got, must, last, resid, tk, aw, tm, pc, rs>>

(******************************* coroutines ********************************)
\* the coroutine at depth d of task t begins or goes on in thread h, with result r
Resume(t, h, d, r) ==
  /\ d = tk[t].d /\ r = tk[t].res
  /\ \/ /\ tk[t].st = "rdy" /\ tk[t].hop \in {0, 3}
        /\ ph[h] = "run" /\ run[h] = 0 /\ batch[h] # <<>> /\ Head(batch[h]) = t
        /\ batch' = [batch EXCEPT ![h] = Tail(@)]
        /\ run' = [run EXCEPT ![h] = t]
     \/ /\ tk[t].st = "imm" /\ run[h] = t
        /\ UNCHANGED <<batch, run>>
  /\ tk' = [tk EXCEPT ![t].st = "run", ![t].hop = 0, ![t].res = 0]
  /\ UNCHANGED <<cfg, now, q, ph, rb, got, must, last, resid, aw, tm, pc, rs>>

\* the first and the last step of a nested sleep
Hop(h) ==
  /\ ph[h] = "run" /\ run[h] = 0 /\ batch[h] # <<>>
  /\ LET t == Head(batch[h])  a == cfg.na + t IN
       \/ /\ tk[t].hop = 1
          /\ tm' = [tm EXCEPT ![h] = Append(@, [a |-> a, dl |-> IF tk[t].nd = 0 THEN now + tk[t].arg ELSE tk[t].arg])]
          /\ aw' = [aw EXCEPT ![a] = [v |-> 0, w |-> t, ft |-> 0]]
          /\ tk' = [tk EXCEPT ![t].hop = 2, ![t].st = "wait"]
          /\ q' = q
       \/ /\ tk[t].hop = 2
          /\ tk' = [tk EXCEPT ![t].hop = 3]
          /\ q' = Push(t)
          /\ UNCHANGED <<tm, aw>>
  /\ batch' = [batch EXCEPT ![h] = Tail(@)]
  /\ resid' = [resid EXCEPT ![h] = TRUE]
  /\ UNCHANGED <<cfg, now, ph, rb, run, got, must, last, pc, rs>>

Running(t) == tk[t].st = "run" /\ run[tk[t].sch] = t /\ pc[tk[t].sch] = <<>>

Await(t, d, k, x, y) ==
  /\ Running(t) /\ d = tk[t].d
  /\ k \in {"y", "g", "c", "a", "v", "n"}
  /\ tk' = [tk EXCEPT ![t].st = "chk", ![t].k = k, ![t].arg = x,
                      ![t].nd = IF k = "a" THEN (IF aw[x].v = 0 THEN 1 ELSE 0) ELSE y]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>

Decide(t) ==
  /\ tk[t].st = "chk"
  /\ LET h == tk[t].sch  k == tk[t].k  x == tk[t].arg
         Requeue(new, s) == /\ tk' = [tk EXCEPT ![t] = new]
                            /\ q' = [q EXCEPT ![s] = Append(@, t)]
                            /\ run' = [run EXCEPT ![h] = 0]
                            /\ aw' = aw
     IN
     \/ k \in {"y", "g"} /\ Requeue([tk[t] EXCEPT !.st = "rdy"], h)
     \/ k = "c" /\ Requeue([tk[t] EXCEPT !.st = "rdy", !.d = @ + 1], h)
     \/ k = "n" /\ Requeue([tk[t] EXCEPT !.st = "rdy", !.hop = 1], h)
     \/ k = "v" /\ x # h /\ tk' = [tk EXCEPT ![t].st = "mv1", ![t].nd = h, ![t].sch = 0] /\ UNCHANGED <<q, run, aw>>
     \/ k = "v" /\ x = h /\ tk' = [tk EXCEPT ![t].st = "imm"] /\ UNCHANGED <<q, run, aw>>
     \/ k = "a" /\ aw[x].v # 0 /\ tk' = [tk EXCEPT ![t].st = "imm", ![t].res = aw[x].v] /\ UNCHANGED <<q, run, aw>>
     \* completed between the look and the suspension
     \/ k = "a" /\ aw[x].v # 0 /\ tk[t].nd = 1 /\ Requeue([tk[t] EXCEPT !.st = "rdy", !.res = aw[x].v], h)
     \/ /\ k = "a" /\ aw[x].v = 0
        /\ tk' = [tk EXCEPT ![t].st = "wait"]
        /\ aw' = [aw EXCEPT ![x].w = t]
        /\ run' = [run EXCEPT ![h] = 0]
        /\ q' = q
  /\ UNCHANGED <<cfg, now, batch, ph, rb, got, must, last, resid, tm, pc, rs>>

\* the move to another scheduler: for a moment the task belongs to neither
Arrive(t) ==
  /\ tk[t].st = "mv1"
  /\ tk' = [tk EXCEPT ![t].st = "mv2", ![t].sch = tk[t].arg]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>
Enlist(t) ==
  /\ tk[t].st = "mv2"
  /\ tk' = [tk EXCEPT ![t].st = "rdy"]
  /\ q' = Push(t)
  /\ run' = [run EXCEPT ![tk[t].nd] = 0]
  /\ UNCHANGED <<cfg, now, batch, ph, rb, got, must, last, resid, aw, tm, pc, rs>>

\* the coroutine at depth d returns v or lets exception v escape; its locals are destroyed (Unwound) in the same thread
Leave(t, d, v) ==
  /\ Running(t) /\ d = tk[t].d
  /\ tk' = [tk EXCEPT ![t].st = "lv", ![t].res = v, ![t].pub = FALSE, ![t].des = FALSE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>
\* its stop callback first: if another thread is inside it, not before that has come out
Dereg(t) ==
  /\ tk[t].st = "lv" /\ tk[t].d = 0 /\ tk[t].cb
  /\ \A p \in Procs : \A i \in DOMAIN pc[p] : ~(pc[p][i].o = "cb" /\ pc[p][i].x = t)
  /\ tk' = [tk EXCEPT ![t].cb = FALSE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>
Unwound(t, d, h) ==
  /\ tk[t].st = "lv" /\ d = tk[t].d /\ ~tk[t].des /\ h = tk[t].sch
  /\ d = 0 => ~tk[t].cb
  /\ tk' = [tk EXCEPT ![t].des = TRUE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>
\* its caller becomes ready
Publish(t) ==
  /\ tk[t].st = "lv" /\ ~tk[t].pub
  /\ tk' = [tk EXCEPT ![t].pub = TRUE]
  /\ q' = IF tk[t].d > 0 THEN Push(t) ELSE q
  /\ UNCHANGED <<cfg, now, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>
Left(t) ==
  /\ tk[t].st = "lv" /\ tk[t].pub /\ tk[t].des
  /\ (tk[t].d > 0 \/ cfg.fin[t] = 0) = TRUE
  /\ tk' = [tk EXCEPT ![t].st = IF tk[t].d > 0 THEN "rdy" ELSE "fin", ![t].d = IF @ > 0 THEN @ - 1 ELSE 0]
  /\ run' = [run EXCEPT ![tk[t].sch] = 0]
  /\ resid' = [resid EXCEPT ![tk[t].sch] = TRUE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, got, must, last, aw, tm, pc, rs>>

\* the task is over; then goes the function object that it was started from, in the same thread
CapBegin(t, h) ==
  /\ tk[t].st = "lv" /\ tk[t].d = 0 /\ tk[t].pub /\ tk[t].des /\ cfg.fin[t] = 1
  /\ h = tk[t].sch /\ pc[h] = <<>>
  /\ tk' = [tk EXCEPT ![t].st = "cap"]
  /\ pc' = [pc EXCEPT ![h] = <<[o |-> "cap", x |-> t, y |-> 0, z |-> 0, st |-> "in", r |-> 0]>>]
  /\ resid' = [resid EXCEPT ![h] = TRUE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, aw, tm, rs>>
CapEnd(t, h) ==
  /\ tk[t].st = "cap" /\ h = tk[t].sch
  /\ pc[h] # <<>> /\ Top(h).o = "cap" /\ Top(h).x = t
  /\ tk' = [tk EXCEPT ![t].st = "fin"]
  /\ pc' = [pc EXCEPT ![h] = <<>>]
  /\ run' = [run EXCEPT ![h] = 0]
  /\ resid' = [resid EXCEPT ![h] = TRUE]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, got, must, last, aw, tm, rs>>

\* a coroutine asks who it is: current scheduler, scheduler of the thread, root (an alias), task (an alias)
Query(t, h, cs, ths, root, task) ==
  /\ Running(t) /\ h = tk[t].sch /\ cs = h /\ ths = h
  /\ IF tk[t].root # 0 THEN root = tk[t].root
     ELSE \A u \in Tasks : (u # t /\ Alive(u)) => tk[u].root # root
  /\ IF tk[t].task # 0 THEN task = tk[t].task
     ELSE task # 0 /\ \A u \in Tasks : (u # t /\ Alive(u)) => tk[u].task # task
  /\ tk' = [tk EXCEPT ![t].root = root, ![t].task = task]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>
\* the task object that the start of task t returned
TaskIs(t, task) ==
  /\ tk[t].st # "no"
  /\ Alive(t) => tk[t].task \in {0, task}
  /\ tk' = [tk EXCEPT ![t].task = IF Alive(t) THEN task ELSE @]
  /\ UNCHANGED <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, aw, tm, pc, rs>>

Advance(x) ==
  /\ x > now /\ now' = x
  /\ UNCHANGED <<cfg, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, pc, rs>>

SilentP(p) == \/ LinGo(p) \/ LinGo2(p) \/ LinSet(p) \/ LinTs(p) \/ LinGs(p) \/ LinSq(p) \/ LinEm(p) \/ LinReg(p)
              \/ LinRs(p) \/ LinRs2(p) \/ StopOne(p) \/ CancelOne(p) \/ RsaDone(p)
SilentH(h) == LoopBegin(h) \/ Fire(h) \/ Snapshot(h) \/ LoopEnd(h) \/ LoopDone(h) \/ Hop(h)
SilentT(t) == Decide(t) \/ Arrive(t) \/ Enlist(t) \/ Dereg(t) \/ Publish(t) \/ Left(t)

Quiescent ==
  /\ \A p \in Procs : pc[p] = <<>>
  /\ \A s \in Scheds : ph[s] = "idle" /\ q[s] = <<>> /\ Due(s) = {} /\ (rb[s] => ~Nothing(s))
  /\ \A t \in Tasks : tk[t].st \in {"no", "fin", "wait", "fut"}
Quiesce == Quiescent /\ UNCHANGED vars
\* every awaitable is completed, every timer has had its time: everything started has finished
AllDone == Quiescent /\ (\A t \in Tasks : tk[t].st \in {"no", "fin"}) /\ (\A s \in Scheds : tm[s] = <<>> /\ ~rb[s]) /\ UNCHANGED vars

(******************************* invariants ********************************)
Occ(t, s) == Cardinality({i \in DOMAIN q[s] : q[s][i] = t}) + Cardinality({i \in DOMAIN batch[s] : batch[s][i] = t})
RECURSIVE SumOcc(_, _)
SumOcc(t, s) == IF s = 0 THEN 0 ELSE Occ(t, s) + SumOcc(t, s - 1)
\* S01: a task is in one place only, and ready tasks are in a queue of their own scheduler
OnePlace ==
  \A t \in Tasks :
    /\ SumOcc(t, cfg.ns) <= 1
    /\ (tk[t].st = "rdy") = (SumOcc(t, cfg.ns) = 1 /\ tk[t].st # "lv")
    /\ tk[t].st = "rdy" => Occ(t, tk[t].sch) = 1
    /\ \A s \in Scheds : run[s] = t => ( \/ (tk[t].st \in {"run", "chk", "imm", "lv", "cap"} /\ tk[t].sch = s)
                                        \/ (tk[t].st \in {"mv1", "mv2"} /\ tk[t].nd = s) )
    /\ tk[t].st \in {"run", "chk", "imm", "lv", "cap"} => run[tk[t].sch] = t
\* F01: whoever waits waits for something that is still open
NoMissed == \A t \in Tasks : tk[t].st = "wait" => \E a \in Aws : aw[a].v = 0 /\ aw[a].w = t
WaitersWait == \A a \in Aws : aw[a].w # 0 => (aw[a].v = 0 /\ tk[aw[a].w].st = "wait")
FutOpen == \A t \in Tasks : tk[t].st = "fut" => \E a \in Aws : aw[a].ft = t /\ aw[a].v = 0
=============================================================================
