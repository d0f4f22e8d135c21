------------------------------- MODULE MCGen --------------------------------
(* All histories of NG bodies (at most NY yields each) iterated, moved,    *)
(* destroyed and started as tasks by NS + NP threads, TOTAL calls.         *)
EXTENDS Gen
CONSTANTS NS, NP, NG, NY, NV, TOTAL, DEPTH
VARIABLES used,  \* calls so far
          seen,  \* body -> values its iterations got
          ran,   \* body -> its own steps: "S", "Y", "D", "L", "F"
          own    \* variable -> the process or body it belongs to
mvars == <<vars, used, seen, ran>>
GSet == { [k |-> "gen", y |-> [i \in 1..n |-> i], r |-> n + 1] : n \in 0..NY }
Init == /\ \E g \in [1..NG -> GSet] : InitWith([ns |-> NS, np |-> NP, nv |-> NV, g |-> g])
        /\ used = 0 /\ seen = [g \in Gens |-> <<>>] /\ ran = [g \in Gens |-> <<>>] /\ own = 0
Log(g, e) == ran' = [ran EXCEPT ![g] = Append(@, e)] /\ UNCHANGED <<used, own>>
Same == UNCHANGED <<used, seen, ran, own>>
\* a variable belongs to the process x mod |Procs|; a variable whose body is running or in a call is left alone
Busy(x) == \E p \in Procs : \E i \in DOMAIN pc[p] : pc[p][i].x = x \/ (pc[p][i].o = "mv" /\ pc[p][i].y = x)
Mine(p) == { x \in DOMAIN var : x % (NS + NP) = p - 1 /\ ~Busy(x) }
Start(p) ==
  /\ used < TOTAL /\ Len(pc[p]) < DEPTH /\ used' = used + 1 /\ UNCHANGED <<seen, ran, own>>
  /\ \E x \in Mine(p) :
       \/ \E g \in Gens : (\A h \in 1..(g-1) : gn[h].st # "no") /\ Call(p, "mk", x, g)
       \/ \E y \in Mine(p) : Call(p, "mv", x, y)
       \/ Call(p, "rs", x, 0) \/ Call(p, "b", x, 0) \/ Call(p, "+", x, 0)
       \/ \E s \in Scheds : Call(p, "go", x, s)
Body1(p, g) ==
  \/ Enter(p, g) /\ Log(g, "S") /\ seen' = seen
  \/ (\E v \in 1..NY : Yield(p, g, v)) /\ Log(g, "Y") /\ seen' = seen
  \/ Return(p, g, cfg.g[g].r) /\ Log(g, "D") /\ seen' = seen
  \/ Locals(p, g) /\ Log(g, "L") /\ seen' = seen
  \/ Frame(p, g) /\ Log(g, "F") /\ seen' = seen
Step(p) ==
  \/ SilentP(p) /\ Same
  \/ \E g \in Gens : Body1(p, g)
  \/ /\ pc[p] # <<>> /\ Ret(p, Top(p).o, Top(p).x, Top(p).r)
     /\ seen' = IF Top(p).r # <<>> THEN [seen EXCEPT ![var[Top(p).x]] = @ \o Top(p).r] ELSE seen
     /\ UNCHANGED <<used, ran, own>>
Next == (\E p \in Procs : Start(p) \/ Step(p)) \/ (Quiesce /\ Same)
Spec == Init /\ [][Next]_<<mvars, own>>
-----------------------------------------------------------------------------
\* what an iteration gets are the values, in order
Exact == \A g \in Gens : LET all == cfg.g[g].y \o <<cfg.g[g].r>> IN
           Len(seen[g]) <= Len(all) /\ seen[g] = SubSeq(all, 1, Len(seen[g]))
\* the body never runs ahead of what has been asked for
Lazy == \A g \in Gens : gn[g].st = "at" =>
          Len(seen[g]) + (IF \E p \in Procs : \E i \in DOMAIN pc[p] : pc[p][i].st = "done" /\ var[pc[p][i].x] = g THEN 1 ELSE 0) >= gn[g].pos
Count(g, e) == Cardinality({i \in DOMAIN ran[g] : ran[g][i] = e})
FrameOnce == \A g \in Gens : Count(g, "F") <= 1 /\ Count(g, "L") <= 1 /\ Count(g, "D") <= 1
                /\ (Count(g, "F") = 1 => Count(g, "L") = (IF Count(g, "S") > 0 THEN 1 ELSE 0))
                /\ (Count(g, "F") = 1 <=> gn[g].st = "gone")
NotAfter == \A g \in Gens : gn[g].st = "gone" => ran[g][Len(ran[g])] = "F"
\* a body is held in one place only
Held == \A g \in Gens : Cardinality({x \in DOMAIN var : var[x] = g}) + Cardinality({s \in Scheds : run[s] = g})
           + Cardinality({<<s, i>> \in Scheds \X (1..NG) : i <= Len(q[s]) /\ q[s][i] = g})
           = (IF gn[g].st \in {"no", "made", "gone"} THEN 0 ELSE 1)
=============================================================================
