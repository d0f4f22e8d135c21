-------------------------------- MODULE Stop --------------------------------
(***************************************************************************)
(* stop_source, stop_token, stop_callback over shared stop states.         *)
(* Handles live in slots; a slot is used by one process at a time.         *)
(* Operations (a, b: slots; i: a fresh state):                             *)
(*   sn a i  new source        mk a i  make_sure_possible                  *)
(*   sc a b  copy-assign       sm a b  move-assign      sw a b swap        *)
(*   sx a    destroy           se a b  equal            st a b  tok[a] := src[b].get_token() *)
(*   sq a / sp a / ss a  stop_requested / stop_possible / request_stop     *)
(*   tc tm tw tx te tq tp      the same for tokens                         *)
(*   r a b   callback a registered with token b    rm: the token is given up *)
(*   d a     destroy callback a                                            *)
(* Processes have a stack: a callback may do all of this again.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  cfg,   \* [np |-> processes, src |-> Seq(state), tok |-> Seq(state), nc |-> number of callback slots], fixed
  src,   \* source slot -> state, 0: none
  tok,   \* token slot -> state
  req,   \* set of states whose stop has been requested
  cb,    \* callback slot -> [st |-> "none" | "reg" | "popped" | "run" | "done", id |-> state, by |-> process]
  stk    \* process -> stack of [o, a, b, st, r]
vars == <<cfg, src, tok, req, cb, stk>>
Procs == 1..cfg.np
NoCb == [st |-> "none", id |-> 0, by |-> 0]
InitWith(c) ==
  /\ cfg = c /\ src = c.src /\ tok = c.tok /\ req = {}
  /\ cb = [i \in 1..c.nc |-> NoCb]
  /\ stk = [p \in 1..c.np |-> <<>>]

Top(p) == stk[p][Len(stk[p])]
Has(p) == stk[p] # <<>>
SetTop(p, f) == stk' = [stk EXCEPT ![p][Len(stk[p])] = f]
Done(p, x) == SetTop(p, [Top(p) EXCEPT !.st = "granted", !.r = x])
Possible(i) == i # 0 /\ (i \in req \/ \E k \in DOMAIN src : src[k] = i)
Requested(i) == i \in req
Bit(x) == IF x THEN 1 ELSE 0

Call(p, o, a, b) ==
  /\ Has(p) => Top(p).st = "body"      \* at the top level or inside a callback
  /\ stk' = [stk EXCEPT ![p] = Append(@, [o |-> o, a |-> a, b |-> b, st |-> "called", r |-> 0])]
  /\ UNCHANGED <<cfg, src, tok, req, cb>>

SrcOps == {"sn", "mk", "sc", "sm", "sw", "sx"}
TokOps == {"st", "tc", "tm", "tw", "tx"}
LinHandle(p) ==
  /\ Has(p) /\ Top(p).st = "called"
  /\ LET f == Top(p) IN
     CASE f.o = "sn" -> src' = [src EXCEPT ![f.a] = f.b] /\ tok' = tok
       [] f.o = "mk" -> src' = [src EXCEPT ![f.a] = IF @ = 0 THEN f.b ELSE @] /\ tok' = tok
       [] f.o = "sc" -> src' = [src EXCEPT ![f.a] = src[f.b]] /\ tok' = tok
       [] f.o = "sm" -> src' = [src EXCEPT ![f.a] = src[f.b], ![f.b] = IF f.a = f.b THEN @ ELSE 0] /\ tok' = tok
       [] f.o = "sw" -> src' = [src EXCEPT ![f.a] = src[f.b], ![f.b] = src[f.a]] /\ tok' = tok
       [] f.o = "sx" -> src' = [src EXCEPT ![f.a] = 0] /\ tok' = tok
       [] f.o = "st" -> tok' = [tok EXCEPT ![f.a] = src[f.b]] /\ src' = src
       [] f.o = "tc" -> tok' = [tok EXCEPT ![f.a] = tok[f.b]] /\ src' = src
       [] f.o = "tm" -> tok' = [tok EXCEPT ![f.a] = tok[f.b], ![f.b] = IF f.a = f.b THEN @ ELSE 0] /\ src' = src
       [] f.o = "tw" -> tok' = [tok EXCEPT ![f.a] = tok[f.b], ![f.b] = tok[f.a]] /\ src' = src
       [] f.o = "tx" -> tok' = [tok EXCEPT ![f.a] = 0] /\ src' = src
       [] OTHER -> FALSE
  /\ Done(p, 0)
  /\ UNCHANGED <<cfg, req, cb>>
LinQuery(p) ==
  /\ Has(p) /\ Top(p).st = "called"
  /\ LET f == Top(p) IN
     /\ f.o \in {"se", "sq", "sp", "te", "tq", "tp"}
     /\ Done(p, CASE f.o = "se" -> Bit(src[f.a] = src[f.b])
                  [] f.o = "te" -> Bit(tok[f.a] = tok[f.b])
                  [] f.o = "sq" -> Bit(Requested(src[f.a]))
                  [] f.o = "tq" -> Bit(Requested(tok[f.a]))
                  [] f.o = "sp" -> Bit(src[f.a] # 0)
                  [] OTHER      -> Bit(Possible(tok[f.a])))
  /\ UNCHANGED <<cfg, src, tok, req, cb>>

\* request_stop: the first one wins and runs every registered callback
LinStop(p) ==
  /\ Has(p) /\ Top(p).st = "called" /\ Top(p).o = "ss"
  /\ LET i == src[Top(p).a] IN
     IF i = 0 \/ i \in req
       THEN Done(p, 0) /\ req' = req
       ELSE SetTop(p, [Top(p) EXCEPT !.st = "signal", !.b = i]) /\ req' = req \cup {i}
  /\ UNCHANGED <<cfg, src, tok, cb>>
Pop(p) ==
  /\ Has(p) /\ Top(p).st = "signal"
  /\ \E c \in DOMAIN cb :
       /\ cb[c].st = "reg" /\ cb[c].id = Top(p).b
       /\ cb' = [cb EXCEPT ![c].st = "popped", ![c].by = p]
  /\ SetTop(p, [Top(p) EXCEPT !.st = "pop"])
  /\ UNCHANGED <<cfg, src, tok, req>>
LinStopDone(p) ==
  /\ Has(p) /\ Top(p).st = "signal"
  /\ \A c \in DOMAIN cb : ~(cb[c].st = "reg" /\ cb[c].id = Top(p).b)
  /\ Done(p, 1)
  /\ UNCHANGED <<cfg, src, tok, req, cb>>

\* constructor of a callback
LinRegister(p) ==
  /\ Has(p) /\ Top(p).st = "called" /\ Top(p).o \in {"r", "rm"}
  /\ LET f == Top(p)
         i == tok[f.b] IN
     /\ tok' = IF f.o = "rm" THEN [tok EXCEPT ![f.b] = 0] ELSE tok
     /\ cb[f.a].st = "none"
     /\ IF i # 0 /\ i \in req
          THEN /\ cb' = [cb EXCEPT ![f.a] = [st |-> "popped", id |-> i, by |-> p]]
               /\ SetTop(p, [f EXCEPT !.st = "pop"])
        ELSE IF Possible(i)
          THEN cb' = [cb EXCEPT ![f.a] = [st |-> "reg", id |-> i, by |-> 0]] /\ Done(p, 0)
        ELSE cb' = cb /\ Done(p, 0)
  /\ UNCHANGED <<cfg, src, req>>

\* a callback begins and ends (inside request_stop or its own constructor)
Begin(p, c) ==
  /\ Has(p) /\ Top(p).st = "pop"
  /\ cb[c].st = "popped" /\ cb[c].by = p
  /\ cb' = [cb EXCEPT ![c].st = "run"]
  /\ stk' = [stk EXCEPT ![p] = Append(@, [o |-> "cb", a |-> c, b |-> 0, st |-> "body", r |-> 0])]
  /\ UNCHANGED <<cfg, src, tok, req>>
End(p, c) ==
  /\ Has(p) /\ Top(p).st = "body" /\ Top(p).a = c
  /\ LET n == Len(stk[p])
         f == stk[p][n - 1] IN
     /\ stk' = [stk EXCEPT ![p] = Append(SubSeq(@, 1, n - 2), [f EXCEPT !.st = IF f.o = "ss" THEN "signal" ELSE "granted"])]
     /\ cb' = IF cb[c].st = "run" /\ cb[c].by = p
                THEN [cb EXCEPT ![c] = IF f.o = "ss" THEN [@ EXCEPT !.st = "done"] ELSE NoCb]
                ELSE cb           \* it has destroyed itself
  /\ UNCHANGED <<cfg, src, tok, req>>

\* destructor of a callback: never before it has ended, unless it runs in this very thread
LinDestroy(p) ==
  /\ Has(p) /\ Top(p).st = "called" /\ Top(p).o = "d"
  /\ LET c == Top(p).a IN
     /\ cb[c].st \in {"popped", "run"} => cb[c].by = p
     /\ cb' = [cb EXCEPT ![c] = NoCb]
  /\ Done(p, 0)
  /\ UNCHANGED <<cfg, src, tok, req>>

Silent(p) == LinHandle(p) \/ LinQuery(p) \/ LinStop(p) \/ Pop(p) \/ LinStopDone(p) \/ LinRegister(p) \/ LinDestroy(p)

Ret(p, o, x) ==
  /\ Has(p) /\ Top(p).st = "granted" /\ Top(p).o = o /\ Top(p).r = x
  /\ stk' = [stk EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<cfg, src, tok, req, cb>>

Quiesce == (\A p \in Procs : stk[p] = <<>>) /\ UNCHANGED vars
=============================================================================
