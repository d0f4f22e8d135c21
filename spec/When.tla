-------------------------------- MODULE When --------------------------------
(***************************************************************************)
(* when_all and when_any.  A strand is a coroutine chain of its own: a     *)
(* root task, or the helper task ("connector") that a when operation       *)
(* starts for each of its items.  An item is the future of an awaitable    *)
(* ("fut") or a coroutine, given as a future or by a callable ("co").      *)
(* Scheduler h is run by thread h; what is ready is resumed first-come-    *)
(* first-served, which is what decides who completes first.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,   \* [ns |-> schedulers, np |-> other threads, na |-> awaitables,
         \*  str |-> <<[k |-> "root"|"fut"|"co", a, w, i]>>, op |-> <<[k |-> "all"|"any", v |-> 1: without scheduler argument, s, it]>>]
  q,     \* scheduler -> ready strands
  run,   \* scheduler -> running strand, 0: none
  sd,    \* strand -> [st, sg: what it does when it runs next, sch, cur: its when operation, x, v: value returned]
  aw,    \* awaitable -> [v: 0 open or the value, w: waiting strand or 0]
  op,    \* when operation -> [by: awaiting strand, add: connectors started, cnt: completed, first: position, comp]
  pc     \* process -> the set() in progress, [x, v, st]

vars == <<cfg, q, run, sd, aw, op, pc>>
Scheds == 1..cfg.ns
Procs == 1..(cfg.ns + cfg.np)
Str == DOMAIN cfg.str
Ops == DOMAIN cfg.op
NoOp == [x |-> 0, v |-> 0, st |-> "-"]
S0 == [st |-> "no", sg |-> "-", sch |-> 0, cur |-> 0, x |-> 0, v |-> 0]

InitWith(c) ==
  /\ cfg = c
  /\ q = [s \in 1..c.ns |-> <<>>] /\ run = [s \in 1..c.ns |-> 0]
  /\ sd = [k \in DOMAIN c.str |-> S0]
  /\ aw = [a \in 1..c.na |-> [v |-> 0, w |-> 0]]
  /\ op = [w \in DOMAIN c.op |-> [by |-> 0, add |-> 0, cnt |-> 0, first |-> 0, comp |-> FALSE]]
  /\ pc = [p \in 1..(c.ns + c.np) |-> NoOp]

Items(w) == Len(cfg.op[w].it)
Add(k, s) == [q EXCEPT ![s] = Append(@, k)]
AtHead(h, k) == run[h] = 0 /\ q[h] # <<>> /\ Head(q[h]) = k
PopQ(h) == [q EXCEPT ![h] = Tail(@)]
\* strand k leaves its scheduler h, to run again later
Requeue(h, k, r) == /\ q' = Add(k, h) /\ run' = [run EXCEPT ![h] = 0] /\ sd' = [sd EXCEPT ![k] = r]

(***************************** the awaitables ******************************)
Call(p, a, v) ==
  /\ pc[p] = NoOp /\ aw[a].v = 0
  /\ p <= cfg.ns => (run[p] = 0 \/ sd[run[p]].st = "run")
  /\ pc' = [pc EXCEPT ![p] = [x |-> a, v |-> v, st |-> "called"]]
  /\ UNCHANGED <<cfg, q, run, sd, aw, op>>
LinSet(p) ==
  /\ pc[p].st = "called"
  /\ LET a == pc[p].x  k == aw[a].w IN
       /\ aw' = [aw EXCEPT ![a] = [v |-> pc[p].v, w |-> 0]]
       /\ IF k = 0 THEN UNCHANGED <<q, sd>>
          ELSE q' = Add(k, sd[k].sch) /\ sd' = [sd EXCEPT ![k].st = "q"]
  /\ pc' = [pc EXCEPT ![p].st = "done"]
  /\ UNCHANGED <<cfg, run, op>>
Ret(p) == pc[p].st = "done" /\ pc' = [pc EXCEPT ![p] = NoOp] /\ UNCHANGED <<cfg, q, run, sd, aw, op>>

(******************************** strands **********************************)
Go(k, s) ==
  /\ cfg.str[k].k = "root" /\ sd[k].st = "no"
  /\ sd' = [sd EXCEPT ![k].st = "go", ![k].sch = s]
  /\ UNCHANGED <<cfg, q, run, aw, op, pc>>
LinGo(k) ==
  /\ sd[k].st = "go"
  /\ sd' = [sd EXCEPT ![k].st = "q", ![k].sg = "S"]
  /\ q' = Add(k, sd[k].sch)
  /\ UNCHANGED <<cfg, run, aw, op, pc>>
GoRet(k) == sd[k].st \notin {"no", "go"} /\ UNCHANGED vars

Outcome(w) ==
  IF cfg.op[w].k = "all" THEN [i \in 1..Items(w) |-> sd[cfg.op[w].it[i]].v]
  ELSE <<op[w].first, IF op[w].first = 0 THEN 0 ELSE sd[cfg.op[w].it[op[w].first]].v>>
Enter(k, h, sg) ==
  /\ sd[k].sg = sg /\ sd[k].sch = h
  /\ \/ sd[k].st = "q" /\ AtHead(h, k) /\ q' = PopQ(h) /\ run' = [run EXCEPT ![h] = k]
     \/ sd[k].st = "imm" /\ run[h] = k /\ UNCHANGED <<q, run>>
\* the body of strand k begins or goes on in thread h
Resume(k, h) ==
  /\ Enter(k, h, "S")
  /\ sd' = [sd EXCEPT ![k].st = "run"]
  /\ UNCHANGED <<cfg, aw, op, pc>>
\* ... with the result of when operation w
Result(k, h, w, vals) ==
  /\ Enter(k, h, "V")
  /\ sd[k].cur = w /\ op[w].comp /\ vals = Outcome(w)
  /\ sd' = [sd EXCEPT ![k].st = "run", ![k].cur = 0]
  /\ UNCHANGED <<cfg, aw, op, pc>>

Running(k) == sd[k].st = "run" /\ run[sd[k].sch] = k /\ pc[sd[k].sch] = NoOp
Await(k, c, x) ==
  /\ Running(k) /\ c \in {"y", "v", "a", "W"}
  /\ c = "W" => op[x].by = 0
  /\ sd' = [sd EXCEPT ![k].st = c, ![k].x = x, ![k].cur = IF c = "W" THEN x ELSE 0]
  /\ op' = IF c = "W" THEN [op EXCEPT ![x].by = k] ELSE op
  /\ UNCHANGED <<cfg, q, run, aw, pc>>
Decide(k) ==
  LET h == sd[k].sch  c == sd[k].st  x == sd[k].x IN
  \/ c = "y" /\ Requeue(h, k, [sd[k] EXCEPT !.st = "q", !.sg = "S"]) /\ UNCHANGED <<cfg, aw, op, pc>>
  \/ c = "v" /\ x = h /\ sd' = [sd EXCEPT ![k].st = "imm", ![k].sg = "S"] /\ UNCHANGED <<cfg, q, run, aw, op, pc>>
  \/ /\ c = "v" /\ x # h /\ sd' = [sd EXCEPT ![k].st = "q", ![k].sg = "S", ![k].sch = x]
     /\ q' = Add(k, x) /\ run' = [run EXCEPT ![h] = 0] /\ UNCHANGED <<cfg, aw, op, pc>>
  \/ c = "a" /\ aw[x].v # 0 /\ sd' = [sd EXCEPT ![k].st = "imm", ![k].sg = "S"] /\ UNCHANGED <<cfg, q, run, aw, op, pc>>
  \/ c = "a" /\ aw[x].v # 0 /\ Requeue(h, k, [sd[k] EXCEPT !.st = "q", !.sg = "S"]) /\ UNCHANGED <<cfg, aw, op, pc>>
  \/ /\ c = "a" /\ aw[x].v = 0
     /\ sd' = [sd EXCEPT ![k].st = "wait", ![k].sg = "S"] /\ aw' = [aw EXCEPT ![x].w = k]
     /\ run' = [run EXCEPT ![h] = 0] /\ UNCHANGED <<cfg, q, op, pc>>
  \* a when operation; without scheduler argument it is a coroutine of its own
  \/ c = "W" /\ cfg.op[x].v = 0 /\ sd' = [sd EXCEPT ![k].st = "add"] /\ UNCHANGED <<cfg, q, run, aw, op, pc>>
  \/ c = "W" /\ cfg.op[x].v = 1 /\ Requeue(h, k, [sd[k] EXCEPT !.st = "q", !.sg = "w0"]) /\ UNCHANGED <<cfg, aw, op, pc>>
\* strand k starts the connectors of its operation
AddCon(k) ==
  /\ sd[k].st = "add"
  /\ LET w == sd[k].cur  s == IF cfg.op[w].s = 0 THEN sd[k].sch ELSE cfg.op[w].s IN
       /\ op[w].add < Items(w)
       /\ LET c == cfg.op[w].it[op[w].add + 1] IN
            /\ sd' = [sd EXCEPT ![c].st = "q", ![c].sg = "c0", ![c].sch = s]
            /\ q' = Add(c, s)
       /\ op' = [op EXCEPT ![w].add = @ + 1]
  /\ UNCHANGED <<cfg, run, aw, pc>>
Complete(w) == op[w].comp \/ Items(w) = 0
AddEnd(k) ==
  /\ sd[k].st = "add"
  /\ LET w == sd[k].cur  h == sd[k].sch IN
       /\ op[w].add = Items(w)
       /\ \/ /\ Complete(w) /\ cfg.op[w].v = 0 /\ sd' = [sd EXCEPT ![k].st = "imm", ![k].sg = "V"]
             /\ op' = [op EXCEPT ![w].comp = TRUE] /\ UNCHANGED <<q, run>>
          \/ /\ Complete(w) /\ cfg.op[w].v = 1 /\ Requeue(h, k, [sd[k] EXCEPT !.st = "q", !.sg = "V"])
             /\ op' = [op EXCEPT ![w].comp = TRUE]
          \/ /\ ~Complete(w) /\ sd' = [sd EXCEPT ![k].st = "susp", ![k].sg = IF cfg.op[w].v = 0 THEN "V" ELSE "w1"]
             /\ run' = [run EXCEPT ![h] = 0] /\ UNCHANGED <<q, op>>
  /\ UNCHANGED <<cfg, aw, pc>>
\* steps between the visible ones
Inner(h) ==
  /\ q[h] # <<>> /\ run[h] = 0
  /\ LET k == Head(q[h])  g == sd[k].sg IN
     \/ /\ g = "w0" /\ q' = PopQ(h) /\ run' = [run EXCEPT ![h] = k] /\ sd' = [sd EXCEPT ![k].st = "add"]
     \/ /\ g = "w1" /\ q' = [q EXCEPT ![h] = Append(Tail(@), k)] /\ sd' = [sd EXCEPT ![k].sg = "V"] /\ run' = run
     \/ /\ g = "c0" /\ cfg.str[k].k = "co"
        /\ q' = [q EXCEPT ![h] = Append(Tail(@), k)] /\ sd' = [sd EXCEPT ![k].sg = "S"] /\ run' = run
     \/ /\ g = "c0" /\ cfg.str[k].k = "fut"
        /\ q' = PopQ(h) /\ run' = [run EXCEPT ![h] = k] /\ sd' = [sd EXCEPT ![k].st = "look"]
     \/ /\ g = "c2" /\ q' = PopQ(h) /\ run' = [run EXCEPT ![h] = k] /\ sd' = [sd EXCEPT ![k].st = "fin"]
  /\ UNCHANGED <<cfg, aw, op, pc>>
Look(k) ==
  /\ sd[k].st = "look"
  /\ LET a == cfg.str[k].a  h == sd[k].sch IN
     \/ aw[a].v # 0 /\ sd' = [sd EXCEPT ![k].st = "fin"] /\ UNCHANGED <<q, run, aw>>
     \/ aw[a].v # 0 /\ Requeue(h, k, [sd[k] EXCEPT !.st = "q", !.sg = "c2"]) /\ aw' = aw
     \/ /\ aw[a].v = 0 /\ sd' = [sd EXCEPT ![k].st = "wait", ![k].sg = "c2"]
        /\ aw' = [aw EXCEPT ![a].w = k] /\ run' = [run EXCEPT ![h] = 0] /\ q' = q
  /\ UNCHANGED <<cfg, op, pc>>
\* the body returns v
Return(k, v) ==
  /\ Running(k)
  /\ sd' = [sd EXCEPT ![k].st = "ret", ![k].v = v]
  /\ UNCHANGED <<cfg, q, run, aw, op, pc>>
Returned(k) ==
  /\ sd[k].st = "ret"
  /\ LET h == sd[k].sch IN
     IF cfg.str[k].k = "root" THEN sd' = [sd EXCEPT ![k].st = "done"] /\ run' = [run EXCEPT ![h] = 0] /\ q' = q
     ELSE Requeue(h, k, [sd[k] EXCEPT !.st = "q", !.sg = "c2"])
  /\ UNCHANGED <<cfg, aw, op, pc>>
\* the operation gets the news: whoever awaits it becomes ready
Tell(w, s2) ==
  LET k == op[w].by IN
  IF s2[k].st = "susp" THEN q' = Add(k, s2[k].sch) /\ sd' = [s2 EXCEPT ![k].st = "q"] ELSE q' = q /\ sd' = s2
Finish(k) ==
  LET w == cfg.str[k].w  h == sd[k].sch
      v == IF cfg.str[k].k = "fut" THEN aw[cfg.str[k].a].v ELSE sd[k].v
      ended == [sd EXCEPT ![k].st = "done", ![k].v = v] IN
  \/ /\ sd[k].st = "fin" /\ cfg.op[w].k = "all"
     /\ op' = [op EXCEPT ![w].cnt = @ + 1, ![w].comp = op[w].cnt + 1 = Items(w)]
     /\ IF op[w].cnt + 1 = Items(w) THEN Tell(w, ended) ELSE sd' = ended /\ q' = q
     /\ run' = [run EXCEPT ![h] = 0]
     /\ UNCHANGED <<cfg, aw, pc>>
  \/ /\ sd[k].st = "fin" /\ cfg.op[w].k = "any" /\ op[w].first # 0
     /\ sd' = ended /\ run' = [run EXCEPT ![h] = 0]
     /\ UNCHANGED <<cfg, q, aw, op, pc>>
  \/ /\ sd[k].st = "fin" /\ cfg.op[w].k = "any" /\ op[w].first = 0
     /\ op' = [op EXCEPT ![w].first = cfg.str[k].i]
     /\ sd' = [sd EXCEPT ![k].st = "fin2", ![k].v = v]
     /\ UNCHANGED <<cfg, q, run, aw, pc>>
  \/ /\ sd[k].st = "fin2"
     /\ op' = [op EXCEPT ![w].comp = TRUE]
     /\ Tell(w, [sd EXCEPT ![k].st = "done"])
     /\ run' = [run EXCEPT ![h] = 0]
     /\ UNCHANGED <<cfg, aw, pc>>

\* nothing that could go on has been left behind
Settled(k) == \/ sd[k].st \in {"no", "done"}
              \/ sd[k].st = "wait" /\ \E a \in DOMAIN aw : aw[a].v = 0 /\ aw[a].w = k
              \/ sd[k].st = "susp" /\ ~op[sd[k].cur].comp
Quiesce == /\ \A s \in Scheds : q[s] = <<>> /\ run[s] = 0
           /\ \A p \in Procs : pc[p] = NoOp
           /\ \A k \in Str : Settled(k)
           /\ UNCHANGED vars
\* the end, when every awaitable has its value: every strand that was started has ended
AllDone == (\A k \in Str : sd[k].st \in {"no", "done"}) /\ Quiesce

SilentP(p) == LinSet(p) \/ (p <= cfg.ns /\ Inner(p))
SilentS(k) == LinGo(k) \/ Decide(k) \/ AddCon(k) \/ AddEnd(k) \/ Look(k) \/ Returned(k) \/ Finish(k)
=============================================================================
