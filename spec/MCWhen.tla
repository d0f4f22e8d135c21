------------------------------- MODULE MCWhen -------------------------------
(* All histories of when_all / when_any within the bounds: NS schedulers,  *)
(* one other thread, a root that awaits one operation over at most NI      *)
(* items (and, with NEST, an item that awaits an operation itself), where  *)
(* every body suspends at most BODY times.                                 *)
EXTENDS When
CONSTANTS NS, NI, BODY, NEST
VARIABLES left,   \* strand -> suspensions its body may still do
          got,    \* operation -> results delivered: <<>> or <<[vals, at: items ended by then]>>
          ends    \* items in the order in which they ended
mvars == <<vars, left, got, ends>>

\* the items of operation w, strands b+1 .. b+Len(ks); awaitables from a+1
Mk(ks, w, b, a) == [i \in DOMAIN ks |->
    [k |-> ks[i], a |-> IF ks[i] = "fut" THEN a + Cardinality({j \in 1..i : ks[j] = "fut"}) ELSE 0, w |-> w, i |-> i]]
Root == [k |-> "root", a |-> 0, w |-> 0, i |-> 0]
KindSeqs(n) == UNION {[1..m -> {"fut", "co"}] : m \in 0..n}
NFut(ks) == Cardinality({j \in DOMAIN ks : ks[j] = "fut"})
Flat == { [ns |-> NS, np |-> 1, na |-> NFut(ks), str |-> <<Root>> \o Mk(ks, 1, 1, 0),
           op |-> <<[k |-> o, v |-> v, s |-> s, it |-> [i \in DOMAIN ks |-> i + 1]]>>] :
          ks \in KindSeqs(NI), o \in {"all", "any"}, v \in 0..1, s \in 0..NS }
\* item 1 of the first operation is a coroutine that awaits the second
Nested == { [ns |-> NS, np |-> 1, na |-> NFut(ks) + NFut(k2), str |-> <<Root>> \o Mk(<<"co">> \o ks, 1, 1, 0) \o Mk(k2, 2, 2 + Len(ks), NFut(ks)),
             op |-> <<[k |-> o, v |-> 0, s |-> 0, it |-> [i \in 1..(Len(ks) + 1) |-> i + 1]],
                      [k |-> o2, v |-> v2, s |-> s2, it |-> [i \in DOMAIN k2 |-> i + 2 + Len(ks)]]>>] :
            ks \in [1..1 -> {"fut", "co"}], k2 \in [1..1 -> {"fut", "co"}] \union {<<"fut", "fut">>}, o \in {"all", "any"}, o2 \in {"all", "any"}, v2 \in 0..1, s2 \in 0..NS }
Cfgs == { c \in IF NEST THEN Nested ELSE Flat : \A w \in DOMAIN c.op : c.op[w].v = 1 => c.op[w].s = 0 }

Init == /\ \E c \in Cfgs : InitWith(c)
        /\ left = [k \in DOMAIN cfg.str |-> BODY] /\ got = [w \in DOMAIN cfg.op |-> <<>>] /\ ends = <<>>
\* the operation that strand k awaits in its body
OpOf(k) == IF cfg.str[k].k = "root" THEN 1 ELSE IF NEST /\ k = 2 THEN 2 ELSE 0
Aux0 == UNCHANGED <<left, got, ends>>
Ended(k) == cfg.str[k].k # "root" /\ sd[k].st \in {"done", "fin2"}
Step(k) ==
  \/ (k = 1 /\ Go(1, 1) /\ Aux0) \/ (SilentS(k) /\ UNCHANGED <<left, got>> /\ ends' = IF sd[k].st = "fin" THEN Append(ends, k) ELSE ends)
  \/ \E h \in Scheds : Resume(k, h) /\ Aux0
  \/ \E h \in Scheds : \E w \in Ops : Result(k, h, w, Outcome(w)) /\ got' = [got EXCEPT ![w] = Append(@, [vals |-> Outcome(w), at |-> ends])]
                                       /\ UNCHANGED <<left, ends>>
  \/ /\ Running(k) /\ left[k] > 0
     /\ \/ Await(k, "y", 0) \/ \E s \in Scheds : Await(k, "v", s)
     /\ left' = [left EXCEPT ![k] = @ - 1] /\ UNCHANGED <<got, ends>>
  \/ Running(k) /\ OpOf(k) # 0 /\ op[OpOf(k)].by = 0 /\ Await(k, "W", OpOf(k)) /\ Aux0
  \/ /\ Running(k) /\ (OpOf(k) # 0 => got[OpOf(k)] # <<>>) /\ Return(k, 10 + k) /\ Aux0
\* a thread gives an awaitable its value: the plain thread, or a host while it runs a body
Start(p) == \E a \in DOMAIN aw : (\A r \in Procs : pc[r].x # a) /\ (IF p > cfg.ns THEN TRUE ELSE run[p] # 0) /\ Call(p, a, 100 + a) /\ Aux0
Next == \/ \E k \in Str : Step(k)
        \/ \E p \in Procs : Start(p) \/ (SilentP(p) /\ Aux0) \/ (Ret(p) /\ Aux0)
        \/ Quiesce /\ Aux0
Spec == Init /\ [][Next]_mvars
Fair == \A k \in 1..5 : WF_mvars(k \in Str /\ Step(k))
        /\ \A p \in 1..(NS+1) : WF_mvars(p \in Procs /\ ((SilentP(p) /\ Aux0) \/ (Ret(p) /\ Aux0))) 
        /\ WF_mvars(Start(NS+1))
FairSpec == Spec /\ Fair
-----------------------------------------------------------------------------
ItemSet(w) == {cfg.op[w].it[i] : i \in DOMAIN cfg.op[w].it}
ValOf(k) == IF cfg.str[k].k = "fut" THEN 100 + cfg.str[k].a ELSE 10 + k
Once == \A w \in Ops : Len(got[w]) <= 1
\* W01: when_all resumes after all items, with the values in the order of the items
AllW == \A w \in Ops : cfg.op[w].k = "all" /\ got[w] # <<>> =>
          /\ \A k \in ItemSet(w) : \E i \in DOMAIN got[w][1].at : got[w][1].at[i] = k
          /\ got[w][1].vals = [i \in DOMAIN cfg.op[w].it |-> ValOf(cfg.op[w].it[i])]
\* W02: when_any resumes with the position and the value of the item that ended first
AnyW == \A w \in Ops : cfg.op[w].k = "any" /\ got[w] # <<>> =>
          LET es == SelectSeq(got[w][1].at, LAMBDA k : k \in ItemSet(w)) IN
          IF Items(w) = 0 THEN got[w][1].vals = <<0, 0>>
          ELSE es # <<>> /\ got[w][1].vals = <<cfg.str[es[1]].i, ValOf(es[1])>>
\* when everything has its value and nothing can move, everything has ended
Ends == <>(\A k \in Str : sd[k].st = "done")
=============================================================================
