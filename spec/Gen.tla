-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* generator_t.  A body yields the values y, one after the other, and      *)
(* returns r.  It is iterated through the variable that holds it, or       *)
(* started as a task, which takes one step - one yield - per turn of its   *)
(* scheduler, first-come-first-served among all the tasks ("co": an        *)
(* ordinary coroutine that yields its turn).  Bodies may iterate other     *)
(* generators.  Threads 1..ns run the schedulers.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,  \* [ns, np, nv |-> variables, g |-> <<[k |-> "gen"|"co", y, r]>>]
  q,    \* scheduler -> ready tasks
  run,  \* scheduler -> running task, 0: none
  gn,   \* body -> [st, pos: yields so far, end: its iterator has ended]
  var,  \* variable -> body or 0
  pc    \* process -> stack of calls [o, x, y, st, r]
vars == <<cfg, q, run, gn, var, pc>>
Procs == 1..(cfg.ns + cfg.np)
Scheds == 1..cfg.ns
Gens == DOMAIN cfg.g

InitWith(c) ==
  /\ cfg = c
  /\ q = [s \in 1..c.ns |-> <<>>] /\ run = [s \in 1..c.ns |-> 0]
  /\ gn = [g \in DOMAIN c.g |-> [st |-> "no", pos |-> 0, end |-> FALSE]]
  /\ var = [x \in 1..c.nv |-> 0]
  /\ pc = [p \in 1..(c.ns + c.np) |-> <<>>]

Top(p) == pc[p][Len(pc[p])]
SetTop(p, f) == [pc EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1) \o <<f>>]
Push(p, f) == [pc EXCEPT ![p] = Append(@, f)]
Pop(p) == [pc EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
\* the body that thread p is in, 0: none
Body(p) == IF pc[p] # <<>> THEN (IF Top(p).st = "run" THEN var[Top(p).x] ELSE -1)
           ELSE IF p <= cfg.ns THEN run[p] ELSE 0
MayCall(p) == \/ Body(p) = 0 \/ (Body(p) > 0 /\ gn[Body(p)].st = "run")

\* o: "b" begin, "+" increment, "mk" x := a new generator y, "mv" x := variable y, "rs" x := nothing,
\*    "go" start what x holds in scheduler y, "gc" start the new task x in scheduler y
May(p, o, x, y) ==
  /\ MayCall(p)
  /\ o = "b" => (var[x] = 0 \/ gn[var[x]].st \in {"fresh", "at", "ret"})
  /\ o = "+" => (var[x] # 0 /\ gn[var[x]].st \in {"at", "ret"} /\ ~gn[var[x]].end)
  /\ o = "mk" => gn[y].st = "no"
  /\ o = "gc" => gn[x].st = "no"
  /\ o = "go" => (var[x] # 0 /\ gn[var[x]].st = "fresh")
  /\ o \in {"mv", "rs", "mk"} => (var[x] # 0 => gn[var[x]].st \in {"fresh", "at", "ret"})
Call(p, o, x, y) ==
  /\ May(p, o, x, y) = TRUE
  /\ pc' = Push(p, [o |-> o, x |-> x, y |-> y, st |-> "called", r |-> <<>>])
  /\ gn' = IF o = "mk" THEN [gn EXCEPT ![y].st = "made"] ELSE IF o = "gc" THEN [gn EXCEPT ![x].st = "made"] ELSE gn
  /\ UNCHANGED <<cfg, q, run, var>>

Calling(p) == pc[p] # <<>> /\ Top(p).st = "called"
Done(p, r) == SetTop(p, [Top(p) EXCEPT !.st = "done", !.r = r])
\* what a call does without the body running or being destroyed
Lin(p) ==
  /\ Calling(p)
  /\ LET c == Top(p) IN
     \/ /\ c.o = "b" /\ var[c.x] = 0 /\ pc' = Done(p, <<>>) /\ UNCHANGED <<q, gn, var>>
     \* a body that has ended has nothing more to give
     \/ /\ c.o \in {"b", "+"} /\ var[c.x] # 0 /\ gn[var[c.x]].st = "ret"
        /\ gn' = [gn EXCEPT ![var[c.x]].end = TRUE]
        /\ pc' = Done(p, <<>>) /\ UNCHANGED <<q, var>>
     \/ /\ c.o = "mk" /\ var[c.x] = 0
        /\ var' = [var EXCEPT ![c.x] = c.y] /\ gn' = [gn EXCEPT ![c.y].st = "fresh"]
        /\ pc' = Done(p, <<>>) /\ UNCHANGED q
     \/ /\ c.o = "mv" /\ (c.x = c.y \/ var[c.x] = 0)
        /\ var' = IF c.x = c.y THEN var ELSE [var EXCEPT ![c.x] = var[c.y], ![c.y] = 0]
        /\ pc' = Done(p, <<>>) /\ UNCHANGED <<q, gn>>
     \/ /\ c.o = "rs" /\ var[c.x] = 0 /\ pc' = Done(p, <<>>) /\ UNCHANGED <<q, gn, var>>
     \/ /\ c.o = "go"
        /\ q' = [q EXCEPT ![c.y] = Append(@, var[c.x])]
        /\ gn' = [gn EXCEPT ![var[c.x]].st = "q"] /\ var' = [var EXCEPT ![c.x] = 0]
        /\ pc' = Done(p, <<>>)
     \/ /\ c.o = "gc"
        /\ q' = [q EXCEPT ![c.y] = Append(@, c.x)]
        /\ gn' = [gn EXCEPT ![c.x].st = "q"] /\ var' = var
        /\ pc' = Done(p, <<>>)
  /\ UNCHANGED <<cfg, run>>
Ret(p, o, x, r) ==
  /\ pc[p] # <<>> /\ Top(p).st = "done" /\ Top(p).o = o /\ Top(p).x = x /\ Top(p).r = r
  /\ pc' = Pop(p)
  /\ UNCHANGED <<cfg, q, run, gn, var>>

\* thread p enters the body of g: because it is iterated, or as the next task of scheduler p
Enter(p, g) ==
  /\ gn' = [gn EXCEPT ![g].st = "run"]
  /\ \/ /\ Calling(p) /\ Top(p).o \in {"b", "+"} /\ var[Top(p).x] = g /\ gn[g].st \in {"fresh", "at"}
        /\ pc' = SetTop(p, [Top(p) EXCEPT !.st = "run"])
        /\ UNCHANGED <<q, run>>
     \/ /\ pc[p] = <<>> /\ p \in Scheds /\ run[p] = 0 /\ q[p] # <<>> /\ Head(q[p]) = g /\ gn[g].st = "q"
        /\ run' = [run EXCEPT ![p] = g] /\ q' = [q EXCEPT ![p] = Tail(@)]
        /\ UNCHANGED pc
  /\ UNCHANGED <<cfg, var>>
Iterated(p, g) == pc[p] # <<>> /\ Top(p).st = "run" /\ var[Top(p).x] = g
Task(p, g) == pc[p] = <<>> /\ p \in Scheds /\ run[p] = g
Yield(p, g, v) ==
  /\ gn[g].st = "run" /\ gn[g].pos < Len(cfg.g[g].y) /\ v = cfg.g[g].y[gn[g].pos + 1]
  /\ \/ Iterated(p, g) /\ gn' = [gn EXCEPT ![g].st = "at", ![g].pos = @ + 1] /\ pc' = Done(p, <<v>>)
     \/ Task(p, g) /\ gn' = [gn EXCEPT ![g].st = "back", ![g].pos = @ + 1] /\ pc' = pc
  /\ UNCHANGED <<cfg, q, run, var>>
\* the task goes to the end of the queue
Back(p) ==
  /\ p \in Scheds /\ run[p] # 0
  /\ \/ gn[run[p]].st = "back" /\ gn' = [gn EXCEPT ![run[p]].st = "q"]
     \* a coroutine that has ended is removed at its next turn
     \/ gn[run[p]].st = "ret" /\ cfg.g[run[p]].k = "co" /\ gn' = gn
  /\ q' = [q EXCEPT ![p] = Append(@, run[p])] /\ run' = [run EXCEPT ![p] = 0]
  /\ UNCHANGED <<cfg, var, pc>>
Return(p, g, v) ==
  /\ gn[g].st = "run" /\ gn[g].pos = Len(cfg.g[g].y) /\ v = cfg.g[g].r
  /\ Iterated(p, g) \/ Task(p, g)
  /\ gn' = [gn EXCEPT ![g].st = "fin"]
  /\ UNCHANGED <<cfg, q, run, var, pc>>

\* the generator that a call of thread p replaces or removes
Victim(p) == IF Calling(p) /\ (Top(p).o \in {"mk", "rs"} \/ (Top(p).o = "mv" /\ Top(p).x # Top(p).y)) THEN var[Top(p).x] ELSE 0
\* the local objects of the body end: it has returned, or is destroyed
Locals(p, g) ==
  /\ \/ /\ gn[g].st = "fin" /\ Iterated(p, g)
        /\ gn' = [gn EXCEPT ![g].st = "ret", ![g].end = Top(p).o = "b"]
        /\ pc' = Done(p, IF Top(p).o = "b" THEN <<>> ELSE <<cfg.g[g].r>>)
     \/ /\ gn[g].st = "fin" /\ Task(p, g)
        /\ gn' = [gn EXCEPT ![g].st = "ret"] /\ pc' = pc
     \/ /\ gn[g].st = "at" /\ Victim(p) = g
        /\ gn' = [gn EXCEPT ![g].st = "ret"] /\ pc' = pc
  /\ UNCHANGED <<cfg, q, run, var>>
\* ... and with them the frame
Frame(p, g) ==
  /\ \/ /\ gn[g].st = "ret" /\ Task(p, g) /\ cfg.g[g].k = "gen"
        /\ run' = [run EXCEPT ![p] = 0] /\ UNCHANGED <<q, var>>
     \/ /\ gn[g].st = "ret" /\ cfg.g[g].k = "co"
        /\ pc[p] = <<>> /\ p \in Scheds /\ run[p] = 0 /\ q[p] # <<>> /\ Head(q[p]) = g
        /\ q' = [q EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<run, var>>
     \/ /\ gn[g].st \in {"ret", "fresh"} /\ Victim(p) = g
        /\ var' = [var EXCEPT ![Top(p).x] = 0] /\ UNCHANGED <<q, run>>
  /\ gn' = [gn EXCEPT ![g].st = "gone"]
  /\ UNCHANGED <<cfg, pc>>

\* no thread can do anything more: the tasks that have been started have ended
Quiesce == /\ \A s \in Scheds : q[s] = <<>> /\ run[s] = 0
           /\ \A p \in Procs : pc[p] = <<>>
           /\ UNCHANGED vars
\* ... and the variables are gone
End == Quiesce /\ \A g \in Gens : gn[g].st \in {"no", "gone"}
\* scheduler s has no tasks
Empty(s) == q[s] = <<>> /\ run[s] = 0 /\ UNCHANGED vars
SilentP(p) == Lin(p) \/ Back(p)
=============================================================================
