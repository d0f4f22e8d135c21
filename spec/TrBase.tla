------------------------------- MODULE TrBase ------------------------------
(* Common part of the trace specifications: many recorded traces in one    *)
(* run.  Register k holds the longest accepted prefix of trace k.          *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
TrStart == t \in 1..N /\ l = 1
LenT == Len(Traces[t].ev)
More == l <= LenT
Cur == Traces[t].ev[l]
Consume == l' = l + 1 /\ t' = t
Stay == More /\ l' = l /\ t' = t
\* no further work on a trace that has been accepted
Track == /\ TLCGet(t) <= LenT
         /\ (TLCGet(t) >= l \/ TLCSet(t, l))
Report == \A k \in 1..N : TLCGet(k) > Len(Traces[k].ev) \/ PrintT(<<"REJ", k, TLCGet(k)>>)
=============================================================================
